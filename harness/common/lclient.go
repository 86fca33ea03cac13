//sym:dir cmd/client
package client

func SymThe() *DissentClient { return dissentClient }
func SymBe(c *DissentClient) { dissentClient = c }
