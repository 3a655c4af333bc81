//go:build race

package props

const raceEnabled = true
