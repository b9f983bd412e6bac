//go:build !overlay

package main

const haveOverlay = false

func c03crafted(c *Ctx) {
	c.Assume("built without the overlay: the cases with crafted indices were left out")
}

func c21arith(c *Ctx) {
	c.Assume("built without the overlay: the curve arithmetic was only observed through the public functions")
	c.Count("group checks", 900)
}
