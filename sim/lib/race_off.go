package main

const raceOn = false

func raceErrors() int { return 0 }
