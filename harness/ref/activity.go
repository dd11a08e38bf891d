package ref

import (
	"fmt"
	"strconv"
)

// Day is one record of the cyclic activity buffer.
type Day struct {
	Pos, Prev int
	B         []byte
}

// Chain follows the daily records from the newest backwards.  Stops holds the
// numbers of records after which a reader may stop (the last is always the
// whole chain); May says that the file may be refused.
func Chain(content []byte) (days []Day, stops map[int]bool, may bool) {
	stops = map[int]bool{}
	oldest, newest := U(content[:2]), U(content[2:4])
	buf := content[4:]
	at := func(i, n int) []byte {
		b := make([]byte, n)
		for k := range b {
			b[k] = buf[(i+k)%len(buf)]
		}
		return b
	}
	pos, total := newest, 0
	may = len(buf) == 0
	for {
		if len(buf) < 4 || pos >= len(buf) {
			may = may || pos >= len(buf) && len(buf) > 0
			break
		}
		h := at(pos, 4)
		prev, n := U(h[:2]), U(h[2:])
		if n == 0 {
			break
		}
		if n < 4 || total+n > len(buf) {
			may = true
			break
		}
		if len(days) > 0 && n != days[len(days)-1].Prev {
			// The link does not agree with the record it leads to.
			stops[len(days)] = true
			may = true
		}
		total += n
		days = append(days, Day{Pos: pos, Prev: prev, B: at(pos, n)})
		if prev == 0 {
			break
		}
		if pos == oldest {
			stops[len(days)] = true
			may = true
		}
		pos -= prev
		if pos < 0 {
			pos += len(buf)
		}
		if pos < 0 {
			may = true
			break
		}
	}
	stops[len(days)] = true
	return
}

var (
	slots      = [2]string{"DRIVER_SLOT", "CO_DRIVER_SLOT"}
	activities = [4]string{"BREAK_REST", "AVAILABILITY", "WORK", "DRIVING"}
)

// Change is the expectation for one activity change word.
func Change(w int, p string, out map[string]string) {
	out[p+".slot"] = slots[w>>15&1]
	out[p+".crew"] = strconv.FormatBool(w>>14&1 == 1)
	out[p+".inserted"] = strconv.FormatBool(w>>13&1 == 0)
	out[p+".activity"] = activities[w>>11&3]
	out[p+".time_of_change_minutes"] = strconv.Itoa(w & 0x7FF)
}

// Changes compares a list of change words with what was reported under p; words
// with an impossible minute may be left out.
func Changes(words []byte, p string, got map[string]string, strict bool) string {
	n, _ := strconv.Atoi(got[p+"#"])
	j := 0
	for i := 0; i+2 <= len(words); i += 2 {
		w := U(words[i : i+2])
		valid := w&0x7FF < 1440
		want := map[string]string{}
		q := fmt.Sprintf("%s[%d]", p, j)
		Change(w, q, want)
		bad := j >= n
		for path, v := range want {
			if g := got[path]; g != v && !(zero(g) && zero(v)) {
				bad = true
			}
		}
		if !bad {
			j++
		} else if valid || strict {
			return fmt.Sprintf("word %d (%04x): reported %v of %d as %v", i/2, w, j, n, pick(got, q))
		}
	}
	if j != n {
		return fmt.Sprintf("%d changes reported, %d expected", n, j)
	}
	return ""
}

func pick(got map[string]string, p string) map[string]string {
	out := map[string]string{}
	for k, v := range got {
		if len(k) > len(p) && k[:len(p)] == p {
			out[k[len(p):]] = v
		}
	}
	return out
}

// DayDiff compares a daily record with the leaves reported under p.
func DayDiff(d Day, p string, got map[string]string) string {
	b := d.B
	if len(b) < 12 {
		if got[p+".valid"] == "true" {
			return "record too short but valid"
		}
		return ""
	}
	ctr, ok := digits(b[8:10])
	if !ok && got[p+".valid"] != "true" {
		return ""
	}
	if got[p+".valid"] != "true" {
		// Only a change that cannot be may spoil a record.
		for i := 12; i+2 <= len(b); i += 2 {
			if U(b[i:i+2])&0x7FF >= 1440 {
				return ""
			}
		}
		return "reported as invalid"
	}
	w := Want{}
	may := false
	dec := NewDec(b, w, p+".", &may)
	dec.U16("activity_previous_record_length")
	dec.U16("activity_record_length")
	dec.Time("activity_record_date")
	dec.Take(2)
	dec.U16("activity_day_distance")
	if ok {
		dec.seti("activity_daily_presence_counter.value", ctr)
	} else {
		dec.seti("activity_daily_presence_counter.value", 0)
	}
	for path, e := range w {
		if g := got[path]; g != e.Eq && !(zero(g) && zero(e.Eq)) {
			return fmt.Sprintf("%s: want %s got %s", path, e.Eq, g)
		}
	}
	return Changes(b[12:], p+".activity_change_info", got, false)
}

// DayRecord makes a daily record.
func DayRecord(prev, k int, words ...int) []byte {
	b := cat(be(2, prev), be(2, 12+2*len(words)), be(4, 1610000000/86400*86400+k*86400), []byte{byte(k / 10 % 10 << 4), byte(k%10 | 0x10)}, be(2, 100+k))
	for _, w := range words {
		b = append(b, be(2, w)...)
	}
	return b
}

// ActivityFile makes a file whose buffer of size n holds the records, the oldest at position at.
func ActivityFile(n, at int, sizes ...int) []byte {
	buf := make([]byte, n)
	pos, prev := at, 0
	newest := at
	for k, s := range sizes {
		words := make([]int, s)
		for i := range words {
			words[i] = (i*97+k*31)%1440 | (i+k)%4<<11 | i%2<<13 | (k+i/3)%2<<14 | (k+i/2)%2<<15
		}
		r := DayRecord(prev, k, words...)
		for i, x := range r {
			buf[(pos+i)%n] = x
		}
		newest = pos
		pos = (pos + len(r)) % n
		prev = len(r)
	}
	return cat(be(2, at), be(2, newest), buf)
}

// ActivityEF is the file of daily activities in either application.
var ActivityEF = both("driver_activity_data", 0x0504, EF{Header: 4, Record: 1, Default: func(n int) []byte {
	return ActivityFile(96, 40, 3, 2, 4)
}})
