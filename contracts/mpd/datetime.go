package mpd

// C04: date-time conversions. dtOK(s) says that s is a date-time text, dtNs(s)
// is the instant it denotes in nanoseconds since the Unix epoch; both are given
// by the trusted contracts of time.Parse and time.Time.Format.

func dtOK(s string) bool { return vAppBool("dtOK", s) }
func dtNs(s string) int  { return vAppInt("dtNs", s) }

// secInYears: the text format expresses the years 0 to 9999.
func secInYears(s int) bool { return -62167219200 <= s && s < 253402300800 }

//verif:contract ConvertToDateTimeS
//verif:prop C04
func conConvertToDateTimeS(seconds int64) DateTime {
	vRequires(func() bool { return secInYears(int(seconds)) })
	dt := ConvertToDateTimeS(seconds)
	vEnsures("is a date-time", func() bool { return dtOK(string(dt)) })
	vEnsures("the instant", func() bool { return dtNs(string(dt)) == int(seconds)*1000000000 })
	return dt
}

//verif:contract ConvertToDateTimeMS
//verif:prop C04
func conConvertToDateTimeMS(ms int64) DateTime {
	vRequires(func() bool { return -62167219200000 <= ms && ms < 253402300800000 })
	dt := ConvertToDateTimeMS(ms)
	vEnsures("is a date-time", func() bool { return dtOK(string(dt)) })
	vEnsures("the instant", func() bool { return dtNs(string(dt)) == int(ms)*1000000 })
	return dt
}

// The instant is the number of seconds cropped to milliseconds; converting the
// fraction to whole nanoseconds may lose less than two of them.
//
//verif:contract ConvertToDateTime
//verif:prop C04
func conConvertToDateTime(seconds float64) DateTime {
	vRequires(func() bool { return vFBetween(seconds, 1, -62167219199, 253402300799) })
	dt := ConvertToDateTime(seconds)
	vEnsures("is a date-time", func() bool { return dtOK(string(dt)) })
	vEnsures("cropped instant", func() bool {
		n := dtNs(string(dt))
		return vFBetween(seconds, 1000000000, n-2, n+1000002)
	})
	vEnsures("whole seconds are exact", func() bool {
		return vForall(-62167219199, 253402300799, func(k int) bool {
			return vImplies(vFIs(seconds, k), dtNs(string(dt)) == k*1000000000)
		})
	})
	return dt
}

// The result is the seconds from the epoch to the instant, up to the rounding
// of the floating point result.
//
//verif:contract DateTime.ConvertToSeconds
//verif:prop C04
func conConvertToSeconds(dt DateTime) (float64, error) {
	s, err := dt.ConvertToSeconds()
	vEnsures("not a date-time", func() bool { return vImplies(!dtOK(string(dt)), err != nil) })
	vEnsures("date-time", func() bool { return vImplies(dtOK(string(dt)), err == nil) })
	vEnsures("seconds since the epoch", func() bool {
		return vImplies(dtOK(string(dt)), vFClose(s, dtNs(string(dt)), 1000000000, 50))
	})
	vEnsures("whole seconds are exact", func() bool {
		n := dtNs(string(dt))
		return vImplies(dtOK(string(dt)) && n%1000000000 == 0, vFIs(s, n/1000000000))
	})
	return s, err
}

//verif:client
//verif:prop C04
func roundTripS(seconds int64) {
	vRequires(func() bool { return secInYears(int(seconds)) })
	s, err := ConvertToDateTimeS(seconds).ConvertToSeconds()
	vAssert("seconds to text and back", func() bool { return err == nil && vFIs(s, int(seconds)) })
}

//verif:client
//verif:prop C04
func roundTripMS(ms int64) {
	vRequires(func() bool { return -62167219200000 <= ms && ms < 253402300800000 })
	s, err := ConvertToDateTimeMS(ms).ConvertToSeconds()
	vAssert("milliseconds to text and back", func() bool { return err == nil && vFClose(s, int(ms), 1000, 50) })
}
