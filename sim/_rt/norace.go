//go:build !race

package zzsim

func raceDisable()    {}
func raceEnable()     {}
func RaceErrors() int { return 0 }
