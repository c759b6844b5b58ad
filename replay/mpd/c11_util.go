package mpd_test

import "strconv"

func parseF(s string) (float64, error) { return strconv.ParseFloat(s, 64) }
