#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept as source so that the file stays consistent).
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    P.append(d)

ped="primitive/pedersen/PedersenCommitment.go"; fo="primitive/fujiokam/FujiOkamCommitment.go"; eq="primitive/pedersen_fujiokam/equality.go"
lrs="primitive/lrs/LinkableRingSignature.go"; ut="util/Util.go"; br="cmd/bridge/bridge.go"; ch="cmd/coordinator/CoordinatorHandler.go"
co="cmd/coordinator/Coordinator.go"; cl="cmd/coordinator/CoordinatorLauncher.go"; sh="cmd/server/AnonServerHandler.go"
clh="cmd/client/ClientHandler.go"; cll="cmd/client/ClientLauncher.go"; pr="util/shuffle/pair.go"; si="util/shuffle/simple.go"; bi="util/shuffle/biffle.go"

p("C01","Pedersen commitments open to exactly the committed value",
  "A Pedersen commitment to any value always verifies with that value and the returned randomness. It verifies with no other pair of value and randomness (modulo the group order) unless the discrete logarithm between the two generators is known, and it is computed under the generators currently held by the base.",
  ["inputs"],"every value, every randomness draw, every pair of generators, every claimed opening",
  "The tests commit to one small constant and verify the right opening once; they never try a wrong opening nor other generators.",
  [ped],[("commit and re-commit comparison",ped)])
p("C02","Pedersen commitments add, subtract and randomise homomorphically",
  "The sum (difference) of two commitments is a valid commitment to the sum (difference) of the values under the sum (difference) of the randomness. A randomised commitment equals the original raised to the returned exponent, so raising both generators to that exponent keeps the original opening valid.",
  ["inputs"],"all values, randomness, generators and randomisation exponents",
  "Tests check one sum of constants; the reputation arithmetic relies on it for every value including negative feedback.",
  [ped],[("group addition/subtraction/exponentiation of commitments",ped)])
p("C03","Integer (Fujisaki-Okamoto) commitments bind integers, including negative ones",
  "A Fujisaki-Okamoto commitment to any integer x with any integer randomness r is exactly the product of the first generator to the x and the blinding generator to the r modulo the composite. The randomness drawn on committing is returned, lies in the documented symmetric interval around zero, and is fresh on every call.",
  ["inputs"],"every integer x (any sign and size), every randomness draw",
  "Tests only commit to one value and recompute it with the same code.",
  [fo,"primitive/fujiokam/point.go"],[("modular exponentiation with integer exponents",fo)])
p("C04","Honest non-negativity arguments always verify; negatives are refused",
  "For every non-negative integer within the supported range, an argument produced for a commitment to it with the commitment's randomness is accepted by the verifier holding the same public parameters. For a negative integer no argument is produced.",
  ["inputs"],"every x in [0, 2^61), every draw of the prover's randomness, every challenge value",
  "Tests prove one or a few constants with one draw of randomness each.",
  [fo],[("three-square based sigma protocol",fo)])
p("C05","Every 4x+1 is decomposed into three squares correctly",
  "For every non-negative integer x the decomposition used by the non-negativity argument terminates with three integers whose squares sum to exactly 4x+1.",
  ["inputs"],"every non-negative x up to the stated bound",
  "Tests sample a few x; a wrong loop bound only shows at particular x.",
  [fo],[("nested search for a, b, d",fo)])
p("C06","No accepted non-negativity argument exists for a negative committed integer",
  "A verifier accepts a non-negativity argument only if the committed integer is non-negative and the committer knows it, whatever values a cheating prover puts into the argument. In particular every element the verification depends on is fixed before the challenge is derived.",
  ["inputs"],"every argument and commitment an algebraic adversary can produce, every challenge",
  "Tests only run the honest prover; soundness quantifies over all cheating provers.",
  [fo],[("Fiat-Shamir challenge over the commitments and the two verification equations",fo)])
p("C07","Honest equality arguments always verify",
  "For every value committed both in a Pedersen commitment and in an integer commitment, the argument produced with both openings is accepted by the verifier holding the same public parameters.",
  ["inputs"],"every value below the group order, both randomness values (including negative integer randomness), all prover draws and challenges",
  "Tests use one value and one draw.",
  [eq],[("three-response sigma protocol across two groups",eq)])
p("C08","No accepted equality argument exists for commitments to different values",
  "A verifier accepts an equality argument only if the Pedersen commitment and the integer commitment hold the same value modulo the group order, whatever values a cheating prover puts into the argument or chooses for the commitments after seeing the challenge.",
  ["inputs"],"every argument and pair of commitments an algebraic adversary can produce, every challenge",
  "Tests only run the honest prover.",
  [eq],[("Fiat-Shamir challenge and reconstruction of both announcements",eq)])
p("C09","The generator honesty proof accepts honest generators and rejects dishonest ones",
  "With honestly generated parameters the answers to any challenge bits pass the check for all six generators. A generator whose logarithm the prover does not know fails the check except when every challenge bit for it was guessed in advance, and the check reports the first generator that failed.",
  ["inputs"],"all challenge bit vectors, all six generators, all positions of the vector, all prover values",
  "Tests run one honest transcript; a skipped position or a mixed-up generator still passes honest runs.",
  [fo],[("80-fold cut-and-choose per generator",fo)])
p("C10","Answering honesty challenges never reveals the generators' trapdoor",
  "No sequence of challenges that clients send to the coordinator lets them learn the secret logarithm between the commitment generators: answers given to different challenges never reuse the same hidden announcement.",
  ["histories","inputs"],"every pair of challenges from the same or different clients",
  "No test runs the coordinator, and a leak needs two challenges.",
  [ch,fo],[("one-time use of honesty proof announcements",ch)])
p("C11","Signatures made with a key verify under that key",
  "A signature produced over any message with any private key and base always verifies for the same message under the matching public key and base.",
  ["inputs"],"every message, private key, base point and nonce",
  "Tests cover one message and key.",
  [ut],[("Schnorr-style sign and verify",ut)])
p("C12","Signatures cannot be forged, transferred or altered",
  "Verification accepts a signature for a message under a public key only if it was produced with the matching private key for that very message. A signature altered in any component, or checked against a different message, key or base, is rejected, and a party without the private key cannot produce an accepted one.",
  ["inputs"],"every signature, message, key and base an algebraic adversary can present",
  "Tests only verify genuine signatures.",
  [ut],[("challenge bound to announcement and message",ut)])
p("C13","No two signatures of a participant reuse a nonce",
  "Across all the protocol messages that a participant signs, each signature uses an independent fresh nonce, so that signatures on different messages never let an observer compute the signer's private key.",
  ["histories","inputs"],"every pair of messages signed by the same coordinator, server or client",
  "It takes two signatures of one key to see; tests make one.",
  [co,sh,cll],[("randomness source handed to signing",co)])
p("C14","Server and coordinator signatures are tied to their own keys",
  "The signatures that coordinator and servers put on assignments and deliveries are accepted for their own public key only: verification fails when the signature was made with any other key, so nobody else can produce them.",
  ["inputs","configurations"],"all key pairs and assignments; every value of an algebraic forger",
  "No test runs these handlers.",
  [co,ch,sh,clh],[("base point used when signing and verifying",ch)])
p("C15","Honest linkable ring signatures always verify",
  "A ring signature made with the private key of any member at any position of any ring verifies for the same message and ring.",
  ["inputs"],"every message, ring (up to the stated size), signer position, key and random draw",
  "Tests use one ring and position.",
  [lrs],[("closing the ring at the signer's position",lrs)])
p("C16","Only ring members can sign, and a ring signature binds message and ring",
  "A ring signature is accepted only if its producer knows the private key of some member of the ring, and only for the message and ring it was made for; signatures with missing or extra components, or with components altered by other than a multiple of the group order, are rejected.",
  ["inputs"],"every signature (including malformed lengths), message and ring up to the stated size",
  "Tests only verify genuine signatures.",
  [lrs],[("sum of challenges against the hash",lrs)])
p("C17","Ring signatures are linkable exactly for the same signer",
  "Two ring signatures on the same message and ring are linkable if and only if the same private key made them.",
  ["inputs"],"every pair of signers, message, ring up to the stated size",
  "Tests compare one pair.",
  [lrs],[("key image",lrs)])
p("C18","ElGamal decryption inverts encryption",
  "Decrypting a ciphertext with the private key matching the encryption key returns the encrypted group element, and decrypting with any other key does not.",
  ["inputs"],"every key, message element and ephemeral draw",
  "Tests cover one key and message.",
  [ut],[("ElGamal encrypt and decrypt",ut)])
p("C19","A shuffle outputs a re-encrypted permutation and its proof verifies",
  "Shuffling any list of ciphertext pairs outputs exactly the input pairs, permuted and each re-randomised consistently in both components with the returned blinding values. Every permutation can be produced, and the accompanying proof is accepted by the verifier.",
  ["inputs"],"every input list up to the stated length, every permutation, every random draw and challenge",
  "The shuffle tests do not compile into the stable suite and exercise random permutations only.",
  [pr,si],[("Neff pair shuffle prover and verifier",pr)])
p("C20","A shuffle proof is accepted only for the shuffle it was made for",
  "The verifier rejects a shuffle proof when any input or output ciphertext or key differs from those of the proven shuffle, even if several are changed together, and when the components of the proof itself are inconsistent with each other.",
  ["inputs"],"every alteration of statement elements after proving; every alteration of proof elements",
  "Tests only verify genuine proofs.",
  [pr,si],[("verification equations and transcript",pr)])
p("C21","The two-element shuffle is correct and its proof binds its statement",
  "The two-element shuffle outputs the two input pairs, swapped or not, consistently re-randomised, with a proof that is accepted; the same proof is rejected for outputs or inputs that differ from those proven.",
  ["inputs"],"both permutations, all inputs, draws, challenges; all alterations of one statement element",
  "The biffle test is not in the stable suite.",
  [bi],[("disjunctive proof",bi)])
p("C22","Signed message bodies determine every signed field",
  "Two protocol messages of the same kind (bridge post, bridge request, signature delivery, vote) that differ in any signed field never have the same signed byte string.",
  ["inputs"],"every pair of messages with byte-string fields up to the stated length and every integer field",
  "A collision needs two specially related messages; tests have none.",
  [br],[("field encoding in the signed message",br)])
p("C23","Encoders and decoders are inverse to each other",
  "Every value the protocol serialises (integers, big integers, secrets, points, lists of them, arguments, signatures, assignments and events) decodes to the value that was encoded, and integer/secret/point conversions preserve the value within their documented range.",
  ["inputs"],"every integer in range, every secret and group element, lists up to the stated length",
  "Tests round-trip a few constants.",
  [ut,br,"primitive/lrs/Encoding.go"],[("encode/decode pairs",ut)])
p("C24","Key-list lookups return the entry of the matching key only",
  "Looking up a pseudonym in a key list returns the position, commitment, exponent or difference stored at the position of that key, wherever it is in the list. It returns the documented absent value exactly when no key matches.",
  ["inputs"],"every list up to the stated length, every position, present or absent keys",
  "Tests do not cover lookups at every position and absence.",
  [ut],[("linear search by key equality",ut)])
p("C25","Bridges are assigned at most once and only as requested",
  "Within a round each posted bridge is assigned to at most one requester, a request for n bridges gets min(n, available) distinct bridges and never more than n, and each assignment names the requester, the posted address and the provider that posted it. Bridges of an earlier round are never assigned.",
  ["histories","inputs"],"every sequence of posts and requests up to the stated length, every iteration order of the bridge table",
  "No test covers the coordinator.",
  [co],[("used flag per bridge",co)],[("bridge table","posted bridges, their providers and used flags",co)])
p("C26","A bridge is recorded only with its poster's valid signature",
  "The coordinator records a posted bridge only if the post carries a valid signature by the stated pseudonym over that address and pseudonym, records it for that pseudonym, and accepts every honest client's post. A rejected post changes nothing.",
  ["inputs"],"every post an algebraic adversary can send; every honest post",
  "No test covers the coordinator.",
  [ch,cll],[("signature check before recording",ch)])
p("C27","An honest request within one's reputation is accepted and served",
  "When a client whose secret opening matches its table entry requests at most its reputation, the coordinator and every server accept the proof, and the servers return signatures that verify under their keys for the assignments made.",
  ["inputs","histories"],"every reputation and request size with 0 <= request <= reputation, all randomness",
  "No test covers the request flow.",
  [cll,ch,sh,br],[("client proofs and shared verification",br)])
p("C28","A request for more bridges than one's reputation is never accepted",
  "The shared proof check used by coordinator and servers accepts a request only if the requested number does not exceed the reputation committed for the requester in the round's table, whatever values a cheating client sends. A pseudonym that is not in the table is rejected without stopping the service.",
  ["inputs"],"every request an algebraic adversary can send; every committed reputation and requested number",
  "No test covers the verification of requests; soundness quantifies over cheaters.",
  [br,ch,sh],[("re-commitment, difference, non-negativity and equality checks",br)])
p("C29","Assignments are delivered only with a complete signature set",
  "The coordinator delivers an assignment to the requester only after itself and every registered server contributed a signature, each stored at its own position, regardless of the order, repetition or failure of replies. It is delivered once, to the address that requested it, and replies from unknown addresses are ignored.",
  ["histories","schedules"],"every order and repetition of server replies up to the stated length, failing and unknown senders",
  "No test covers reply orders.",
  [ch,co],[("per-assignment signature log and counter",co)],[("signature log","signatures received per assignment",co)])
p("C30","A vote counts once, as plus or minus one, and only from the assigned requester",
  "A vote changes the provider's score only if it is signed by a participant of the round who is the requester of the assignment, the assignment carries valid signatures of the coordinator and every server, and the feedback is +1 or -1. Each such vote counts exactly once and changes exactly the provider's score by exactly the feedback.",
  ["inputs","histories"],"every vote an algebraic adversary can send, every sequence of votes up to the stated length",
  "No test covers votes.",
  [ch],[("vote verification chain",ch)],[("score differences","pending change per provider",ch)])
p("C31","A server's announcement step preserves the reputation table",
  "When a server processes the announcement, each client's key is raised to the server's round key and its commitment to one common fresh exponent, pairs stay together under whatever permutation, and the generator and both commitment generators are raised by the same exponents. The result passes the next server's verification.",
  ["inputs"],"every table up to the stated size, every permutation and random draw, first or later server",
  "No test covers the server.",
  [sh,pr],[("re-encryption, shuffle and rebinding",sh)])
p("C32","A server's round-end step inverts its announcement step",
  "At the end of a round each server maps every pseudonym back to the key it had before that server's announcement step, keeping it paired with its commitment raised to a common fresh exponent along with both commitment generators, and then renews its round key. The result passes the next server's verification.",
  ["inputs","histories"],"every table up to the stated size including newly registered clients, every permutation and draw",
  "No test covers the server.",
  [sh],[("key map lookup, shuffle and rebinding",sh)])
p("C33","A server refuses tables that come with an invalid shuffle proof",
  "A server processing an announcement or round end that carries a shuffle stops without forwarding anything when the proof does not verify for the carried data.",
  ["inputs"],"every alteration of one element of the carried shuffle or proof",
  "No test covers the server.",
  [sh],[("verification before use",sh)])
p("C34","A client's reputation and secret always open its table entry",
  "After every complete round, whatever votes were counted, each participating client's stored reputation and opening secret open the commitment listed for its new pseudonym under the round's commitment generators, and its pseudonym is the round generator raised to its private key. Its reputation equals the previous one plus the feedback counted for it.",
  ["histories","inputs"],"all votes and sums of feedback, all server randomness, several rounds, several clients and servers within the stated bounds",
  "No test runs a round.",
  [cl,ch,sh,clh],[("commitment update with the same randomness sent to clients",cl)])
p("C35","Registration credits a new client with the starting reputation",
  "A client that registers during a round is added to the table with a commitment to the starting credit that opens with the secret sent to that client, under a pseudonym that the servers map back to its public key, and it takes part in the next round.",
  ["inputs","histories"],"every client key, all draws, one or more servers",
  "No test covers registration.",
  [ch,sh,clh],[("initial commitment and key encryption chain",ch)])
p("C36","A client records only assignments delivered under the coordinator's signature",
  "A client stores a delivered assignment and its signatures only if the delivery carries a valid signature of the coordinator over exactly that assignment and signature list; every honest delivery is stored, in order.",
  ["inputs"],"every delivery an algebraic adversary can send; every honest delivery",
  "No test covers the client.",
  [clh],[("signature check before recording",clh)])
p("C37","A client aborts on parameters that fail the honesty check",
  "A client continues after the honesty answer only if the answers satisfy the check for all six generators against its own challenge; otherwise it stops.",
  ["inputs"],"every answer vector",
  "No test covers the client.",
  [clh,fo],[("honesty check",clh)])
p("C38","A client never asks for more than its reputation and votes only plus/minus one",
  "A client sends no request when the requested number exceeds its reputation, and otherwise sends exactly one request carrying that number. The vote it sends carries +1 for positive and -1 otherwise, for the chosen assignment.",
  ["inputs"],"every reputation, every requested number, every feedback value and assignment index",
  "No test covers the client.",
  [cll],[("local guards",cll)])
p("C39","Generated commitment parameters have the documented structure",
  "Parameter generation yields a modulus that is the product of the two safe primes, a blinding generator that is a square, and six generators that are powers of it with the secret exponents kept, so that its own honesty proof always passes.",
  ["inputs"],"every draw of the randomness",
  "Tests use one random generation and only test that proofs pass.",
  [fo],[("generation of generators",fo)])
p("C40","Score changes reach the table and the clients consistently",
  "At the end of a round the coordinator commits to each participant's score change, adds it to that participant's commitment, sends exactly the matching randomness for each listed key, and later reports exactly the counted score change for each key.",
  ["inputs","histories"],"every table up to the stated size, every score change (positive, zero, negative), every iteration order",
  "No test covers the coordinator.",
  [cl,ch],[("parallel lists of keys, commitments, randomness",cl)])
p("C41","Concurrent events and phase changes never corrupt coordinator state",
  "An event handled by the coordinator's listener while its main loop moves to the next phase has the same effect as if it were handled entirely before or entirely after the phase change: a vote is reported and committed, or neither; no bridge or assignment of a closed round is left over; nothing stops; and the next round works.",
  ["schedules"],"all points of one at which the other can run, in both directions",
  "Tests are single-threaded.",
  [cl,ch],[("status field polled without synchronisation",cl)])
p("C42","Malformed network input never stops a participant",
  "Arbitrary bytes received from the network are rejected without stopping the receiving coordinator, server or client.",
  ["inputs"],"every byte string",
  "Tests send nothing over the network.",
  [ut,ch,sh,clh],[("event decoding",ut)])
p("C43","What a client publishes blinds its reputation with fresh, wide randomness",
  "Every number and commitment a client publishes in a bridge request depends on its reputation, and on the parts the reputation is decomposed into, only through values blinded with fresh randomness from a range at least 2^40 times larger than what it blinds. No two published numbers, of one request or of different requests, share their blinding.",
  ["inputs"],"all outcomes of the draws (which must exist) for every published number and pair of them",
  "Tests only check that arguments verify, which they do with any blinding, even none.",
  [fo,eq,clh],[("masking by randomness",fo)])
p("C44","A round always completes and the next one opens",
  "With honest participants, a round that the operator ends always completes, and the round opened after it always opens: each passes through every server exactly once, every registered client hears of the end exactly once, and afterwards every participant agrees on the generators and its table entry. This holds whatever happened in the round, including nothing, and whichever participant handles its messages late.",
  ["schedules","histories"],"every order of deliveries in which one participant falls behind at any message; every sequence of what happens in a round",
  "Tests run no round.",
  [cl,ch,sh,clh],[("round end",cl),("announcement",cl),("forwarding",sh)])
p("C45","Servers sign only the assignments that a proven request covers",
  "A server signs a list of assignments only together with a request that is proven against the current round's table: at most as many assignments as the requested number, each naming the pseudonym of the request as its requester. It then signs exactly those assignments; otherwise it signs none of them and answers with a failure.",
  ["inputs","histories"],"every request, length of the list, named requester, and round in which it is presented",
  "Tests call no server handler.",
  [sh,br],[("signing of assignments",sh),("request proof",br)])
p("C46","Every server contributes to the commitment parameters that all share",
  "After any number of servers have registered, one after the other or at the same time, they form one ring from and to the coordinator, and they, the coordinator and every client hold the same commitment parameters. The logarithm between the two Pedersen generators depends on a fresh secret of every single server: coordinator and all other servers together cannot compute it.",
  ["schedules","inputs"],"every order in which the messages of servers that start together arrive, and every choice of the one server that keeps its secret",
  "Tests start no server, and a lost contribution changes nothing that honest participants see.",
  [ch,cl,sh],[("server registration",ch),("contribution to h",sh),("configuration",cl)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
