package sym

import "time"

func init() {
	time.VerifNow = func() (int64, bool) {
		if in.Inputs == nil {
			return 0, false
		}
		if !nowSet {
			if v, ok := in.Inputs["now"]; !ok || v == "" {
				return 0, false
			}
			nowV, nowSet = val("now").Int64(), true
		}
		return nowV, true
	}
}
