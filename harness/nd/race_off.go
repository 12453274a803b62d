//go:build !race

package nd

func raceDisable() {}
func raceEnable()  {}
