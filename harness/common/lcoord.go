//sym:dir cmd/coordinator
package coordinator

func SymThe() *Coordinator { return anonCoordinator }
func SymNoFakes()          { isFirstRound = false }
