package checks

import (
	"fmt"
	"strings"
	"time"
	_ "time/tzdata" // local zones must not depend on the machine

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C24", Title: "dates in every git format",
		Assumptions: []string{"the standard library's time zone rules", "years of four digits", "a local time that occurs twice may stand for either instant"},
		Scenarios:   c24,
	})
}

var (
	dayNames   = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}
	monthNames = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
)

// civil converts days since 1970-01-01 to a proleptic Gregorian date.
func civil(days int64) (y, m, d int64) {
	z := days + 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if m > 12 {
		m -= 12
	}
	y = yoe + era*400
	if m <= 2 {
		y++
	}
	return
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

var dateForms = []string{"default", "iso", "iso-strict", "iso-strict-offset", "rfc", "raw", "unix", "default-local", "short"}

// gitDate writes an instant as git does. off is in minutes.
func gitDate(form string, sec, off int64) string {
	t := sec + off*60
	days := floorDiv(t, 86400)
	s := t - days*86400
	y, m, d := civil(days)
	h, mi, se := s/3600, s/60%60, s%60
	wd := dayNames[((days+4)%7+7)%7]
	sign, a := "+", off
	if off < 0 {
		sign, a = "-", -off
	}
	zone := fmt.Sprintf("%s%02d%02d", sign, a/60, a%60)
	switch form {
	case "default":
		return fmt.Sprintf("%s %s %d %02d:%02d:%02d %d %s", wd, monthNames[m-1], d, h, mi, se, y, zone)
	case "default-local":
		return fmt.Sprintf("%s %s %d %02d:%02d:%02d %d", wd, monthNames[m-1], d, h, mi, se, y)
	case "iso":
		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d %s", y, m, d, h, mi, se, zone)
	case "iso-strict":
		if off == 0 {
			return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", y, m, d, h, mi, se)
		}
		fallthrough
	case "iso-strict-offset":
		return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s:%s", y, m, d, h, mi, se, zone[:3], zone[3:])
	case "rfc":
		return fmt.Sprintf("%s, %d %s %d %02d:%02d:%02d %s", wd, d, monthNames[m-1], y, h, mi, se, zone)
	case "raw":
		return fmt.Sprintf("%d %s", sec, zone)
	case "unix":
		return fmt.Sprint(sec)
	case "short":
		return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
	}
	panic("engine: bad form")
}

// verifyDate checks one date string. For the zoneless forms off is the local
// offset at that instant.
func verifyDate(t *engine.T, form string, sec, off int64, loc *time.Location) {
	in := gitDate(form, sec, off)
	t.Desc(func() string { return fmt.Sprintf("%s in %v", q(in), loc) })
	t.Trace()
	got, err := gitdiff.ParsePatchDate(in)
	if err != nil {
		t.Fail("refused", "%s date %q refused: %v", form, in, err)
	}
	if got.Nanosecond() != 0 {
		t.Fail("fraction", "%s date %q has a fraction: %v", form, in, got)
	}
	_, o := got.Zone()
	switch form {
	case "short":
		y, m, d := civil(floorDiv(sec+off*60, 86400))
		if want := time.Date(int(y), time.Month(m), int(d), 0, 0, 0, 0, loc); !got.Equal(want) {
			t.Fail("instant", "short date %q is %v, want %v", in, got, want)
		}
	case "unix":
		if got.Unix() != sec {
			t.Fail("instant", "%s date %q is %v (%d), want %d", form, in, got, got.Unix(), sec)
		}
	case "default-local":
		if got.Unix() != sec {
			// the same local time may occur twice
			_, lo := time.Unix(got.Unix(), 0).In(loc).Zone()
			if lo%60 != 0 || gitDate(form, got.Unix(), int64(lo)/60) != in {
				t.Fail("instant", "%s date %q in %v is %v (%d), want %d", form, in, loc, got, got.Unix(), sec)
			}
		}
	default:
		if got.Unix() != sec {
			t.Fail("instant", "%s date %q is %v (%d), want %d", form, in, got, got.Unix(), sec)
		}
		if int64(o) != off*60 {
			t.Fail("offset", "%s date %q in %v has offset %d s, want %d s", form, in, loc, o, off*60)
		}
	}
}

// posixZone builds a location without local mean time, as the zone files for
// names such as EST5EDT have.
func posixZone(name string, std int32, rule string) *time.Location {
	be := func(v int32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
	block := func() []byte {
		b := []byte("TZif2")
		b = append(b, make([]byte, 15)...)
		for _, n := range []int32{0, 0, 0, 0, 1, 4} { // utc, std, leap, times, types, chars
			b = append(b, be(n)...)
		}
		b = append(b, be(std)...)
		b = append(b, 0, 0)
		return append(b, 'S', 'T', 'D', 0)
	}
	b := append(block(), block()...)
	b = append(b, "\n"+rule+"\n"...)
	loc, err := time.LoadLocationFromTZData(name, b)
	if err != nil {
		panic("engine: " + err.Error())
	}
	return loc
}

func localZones() []*time.Location {
	out := []*time.Location{time.UTC, time.FixedZone("F", -7*3600), posixZone("EST5EDT", -5*3600, "EST5EDT,M3.2.0,M11.1.0"), posixZone("CET-1CEST", 3600, "CET-1CEST,M3.5.0,M10.5.0/3")}
	for _, n := range []string{"America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/Sao_Paulo", "Pacific/Kiritimati", "Asia/Kathmandu", "America/St_Johns"} {
		l, err := time.LoadLocation(n)
		if err != nil {
			panic("engine: " + err.Error())
		}
		out = append(out, l)
	}
	return out
}

func c24(tier string) []engine.Scenario {
	var ss []engine.Scenario
	saved := time.Local
	within := func(loc *time.Location, s engine.Scenario) {
		s.Setup = func() { time.Local = loc }
		s.Teardown = func() { time.Local = saved }
		s.Name += " (local zone " + loc.String() + ")"
		ss = append(ss, s)
	}
	locs := localZones()
	zones := []int64{0, -420, 330, 60, -300, 345, 840, -720, -1, 1, 59, -210, 765}
	times := []int64{0, 86399, 43200, 3661}
	firstDay, lastDay := int64(0), int64(sel(tier, 84370, 2932896)) // 1970..2200, ..9999
	for li, loc := range locs {
		loc, li := loc, li
		days := lastDay
		if li > 0 && tier != "thorough" {
			days = 32872 // ..2059
		}
		within(loc, engine.Scenario{
			Name:  "every day",
			Bound: fmt.Sprintf("every day from 1970 for %d days x 9 forms, with time of day and zone offset cycling through boundary values; the local forms at the location's own offset", days),
			Run: func(t *engine.T) {
				c := t.Choose(int(days/256) + 1)
				form := engine.Pick(t, dateForms)
				for d := firstDay + int64(c)*256; d < min(days, int64(c+1)*256); d++ {
					sec := d*86400 + times[d%int64(len(times))]
					off := zones[d%int64(len(zones))]
					if form == "default-local" || form == "short" || d%5 == 0 {
						_, o := time.Unix(sec, 0).In(loc).Zone()
						if o%60 != 0 {
							continue
						}
						off = int64(o) / 60
					}
					verifyDate(t, form, sec, off, loc)
				}
				t.State(form, fmt.Sprint(c), loc.String())
			},
		})
	}
	years := sel(tier, []int{2011, 2020}, []int{1999, 2000, 2001, 2007, 2011, 2020, 2021})
	step := int64(sel(tier, 1800, 900))
	instants := []int64{0, 1, 951782400 - 1, 951782400, 1586419626, 1593561600, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 4102444799, 253402300799 - 90000, 68169600, 1709164800, 1709251200}
	for _, loc := range locs {
		loc := loc
		within(loc, engine.Scenario{
			Name:  "every offset",
			Bound: fmt.Sprintf("every zone offset of whole minutes from -14:00 to +14:00 x %d instants x forms with an offset", len(instants)),
			Run: func(t *engine.T) {
				sec := engine.Pick(t, instants)
				form := engine.Pick(t, dateForms[:6])
				for off := int64(-840); off <= 840; off++ {
					verifyDate(t, form, sec, off, loc)
				}
				t.State(form, fmt.Sprint(sec), loc.String())
			},
		})
		within(loc, engine.Scenario{
			Name:  "around transitions",
			Bound: fmt.Sprintf("every %d seconds of %v and the seconds around each, in the local forms and in zoned forms with the location's standard and daylight offsets", step, years),
			Run: func(t *engine.T) {
				month := t.Choose(12)
				year := engine.Pick(t, years)
				form := engine.Pick(t, dateForms)
				a := time.Date(year, time.Month(month+1), 1, 0, 0, 0, 0, time.UTC).Unix()
				b := time.Date(year, time.Month(month+2), 1, 0, 0, 0, 0, time.UTC).Unix()
				_, w := time.Unix(instants[4]-86400*180, 0).In(loc).Zone()
				_, s := time.Unix(instants[4]+86400*60, 0).In(loc).Zone()
				for x := a; x < b; x += step {
					for d := int64(-1); d <= 1; d++ {
						_, o := time.Unix(x+d, 0).In(loc).Zone()
						verifyDate(t, form, x+d, int64(o)/60, loc)
						if form != "default-local" && form != "short" && form != "unix" {
							verifyDate(t, form, x+d, int64(w)/60, loc)
							verifyDate(t, form, x+d, int64(s)/60, loc)
						}
					}
				}
				t.State(form, fmt.Sprint(year, month), loc.String())
			},
		})
	}
	within(locs[2], engine.Scenario{
		Name:  "every second of a day",
		Bound: "86400 times of day x 9 forms x 1 (thorough: 3) days x 2 offsets",
		Run: func(t *engine.T) {
			h := t.Choose(24)
			form := engine.Pick(t, dateForms)
			day := engine.Pick(t, sel(tier, []int64{18361}, []int64{18361, 11016, 0}))
			off := engine.Pick(t, []int64{-300, 0})
			for s := int64(0); s < 3600; s++ {
				sec := day*86400 + int64(h)*3600 + s
				o := off
				if form == "default-local" || form == "short" {
					_, lo := time.Unix(sec, 0).In(locs[2]).Zone()
					o = int64(lo) / 60
				}
				verifyDate(t, form, sec, o, locs[2])
			}
			t.State(form, fmt.Sprint(h, day, off))
		},
	})
	// strings in no form
	bad := []string{" ", "\n", "x", "now", "yesterday", "2 days ago", "never", "Thu", "2020", "0x10", "1e9", "--5", "1.5", "1_000", "", "99999999999999999999", "-99999999999999999999", "18446744073709551616 +0000", "1586419626 PDT", "1586419626 -0700 x", "1586419626 0700", "1586419626 -07:00", "1586419626 -070", "x 1586419626 -0700", "1586419626 +9900", "1586419626 +0099", "4/9/2020 01:07:06 PDT", "2020/04/09", "09-04-2020", "2020-13-01", "2020-00-01", "2020-02-30", "2021-02-29", "2020-04-31", "2020-01-00", "2020-01-32", "Thu Apr 9 24:07:06 2020 -0700", "Thu Apr 9 01:60:06 2020 -0700", "Thu Apr 9 01:07:60 2020 -0700", "Thu Apr 32 01:07:06 2020 -0700", "Thu Abc 9 01:07:06 2020 -0700", "Xyz Apr 9 01:07:06 2020 -0700", "Thu Apr 9 01:07:06 2020 PDT", "Thu Apr 9 01:07:06 20 -0700", "2020-04-09 01:07 -0700", "2020-04-09 01:07:06", "2020-04-09T01:07:06", "2020-04-09T01:07:06-0700", "2020-04-09 01:07:06 -07:00", "20200409T010706Z", "Thu, 9 Apr 2020 01:07:06", "Thu, 9 Apr 2020 01:07:06 GMT", "\x00", "\xff", "２０２０-04-09"}
	digits := func(s string) bool { return s != "" && len(s) < 19 && strings.Trim(s, "0123456789") == "" }
	ss = append(ss, engine.Scenario{
		Name:  "strings in no form",
		Bound: fmt.Sprintf("%d strings; every character of one date in each form replaced by each of 3, every proper prefix, and every form followed by text, that is no form", len(bad)),
		Run: func(t *engine.T) {
			var s string
			switch t.Choose(4) {
			case 0:
				s = engine.Pick(t, bad)
			case 1:
				d := gitDate(engine.Pick(t, dateForms), 1586419626, engine.Pick(t, []int64{-420, 0}))
				i := t.Choose(len(d))
				s = d[:i] + engine.Pick(t, []string{"x", "/", "\x00"}) + d[i+1:]
			case 2:
				d := gitDate(engine.Pick(t, dateForms), 1586419626, engine.Pick(t, []int64{-420, 0}))
				s = strings.TrimRight(d[:t.Choose(len(d))], " ")
				for _, f := range dateForms {
					if s == gitDate(f, 1586419626, -420) || s == gitDate(f, 1586419626, 0) {
						t.Skip()
					}
				}
			case 3:
				s = gitDate(engine.Pick(t, dateForms), 1586419626, -420) + engine.Pick(t, []string{"x", " x", " 1", ":", "\n", "-", " +0000 +0000"})
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			t.Trace()
			got, err := gitdiff.ParsePatchDate(s)
			switch {
			case s == "":
				t.Outcome("empty")
				if err != nil || !got.IsZero() {
					t.Fail("empty", "the empty date gives %v, %v", got, err)
				}
			case digits(s):
				t.Outcome("unix")
				if err != nil || fmt.Sprint(got.Unix()) != strings.TrimLeft(s, "0") {
					t.Fail("unix", "%q gives %v, %v", s, got, err)
				}
			default:
				t.Outcome("refused")
				if err == nil {
					t.Fail("accepted", "%q accepted as %v", s, got)
				}
			}
		},
	})
	return ss
}
