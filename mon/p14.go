package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/qri-io/dataset"
)

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "datasets with random subsets of fields are signed and compared with bytes rebuilt independently from the statement (the calendar time is computed from Unix seconds by the monitor); then single fields are changed: the listed ones have to change the bytes, all others must not; before/after snapshots show that asking changes nothing; non-trivial: at least one line, distinct by bytes",
		Assume: []string{
			"paths and IDs contain no newline; commit times fall in years 1 to 9999",
		},
		Need: map[string]int64{"signed": 10000, "must_change": 5000, "must_not_change": 5000, "lines": 20000},
		Run:  runC14,
	})
}

// refRFC3339 writes Unix seconds as a UTC calendar time (civil-from-days)
func refRFC3339(sec int64) string {
	days := sec / 86400
	rem := sec % 86400
	if rem < 0 {
		rem += 86400
		days--
	}
	z := days + 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d := doy - (153*mp+2)/5 + 1
	m := mp + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02dZ", y, m, d, rem/3600, rem/60%60, rem%60)
}

func signTime(c *Case) time.Time {
	r := c.Rng
	var s int64
	switch r.Intn(5) {
	case 0:
		s = int64(r.Intn(2000000000))
	case 1:
		s = -int64(r.Intn(2000000000)) * 20
	case 2:
		s = int64(r.Intn(1<<31)) * 100
	case 3:
		s = 951782400 + int64(r.Intn(86400*3)) // around 29 Feb 2000
	default:
		s = int64(1970+r.Intn(120)-1970)*31556952 + int64(r.Intn(200000)) - 100000 // around new year
	}
	t := time.Unix(s, 0)
	if r.Intn(12) == 0 {
		for t = specialTimes[r.Intn(len(specialTimes))]; t.Year() < 2 || t.Year() > 9998; {
			t = specialTimes[r.Intn(len(specialTimes))]
		}
	}
	if r.Intn(2) == 0 {
		t = t.Add(time.Duration(r.Intn(1e9)))
	}
	return t.In(time.FixedZone("z", (r.Intn(53)-26)*1800+r.Intn(2)*900))
}

func genSignable(c *Case) *dataset.Dataset {
	ds := genDataset(c.Rng, docOpts{tok: func() string {
		return strings.Map(func(r rune) rune {
			if r == '\n' {
				return '_'
			}
			return r
		}, docStr(c.Rng, docOpts{}))
	}, secrets: true, files: c.Rng.Intn(3) == 0})
	if ds.Commit != nil && !ds.Commit.Timestamp.IsZero() {
		ds.Commit.Timestamp = signTime(c)
	}
	return ds
}

func refSigning(ds *dataset.Dataset) (string, int) {
	var ls []string
	add := func(p, v string) {
		if v != "" {
			ls = append(ls, p+":"+v)
		}
	}
	add("id", ds.ID)
	add("bd", ds.BodyPath)
	if ds.Commit != nil && !ds.Commit.Timestamp.IsZero() {
		add("cm", refRFC3339(ds.Commit.Timestamp.Unix()))
	}
	if ds.Meta != nil {
		add("md", ds.Meta.Path)
	}
	if ds.Readme != nil {
		add("rm", ds.Readme.Path)
	}
	if ds.Structure != nil {
		add("st", ds.Structure.Path)
	}
	if ds.Transform != nil {
		add("tf", ds.Transform.Path)
	}
	if ds.Stats != nil {
		add("sa", ds.Stats.Path)
	}
	if ds.Viz != nil {
		add("vz", ds.Viz.Path)
	}
	return strings.Join(ls, "\n"), len(ls)
}

func runC14(r *Run) {
	sign := func(c *Case, ds *dataset.Dataset) []byte {
		before := dump(ds)
		got := ds.SigningBytes()
		c.Ev("signed")
		if a := dump(ds); a != before {
			c.Fail("modified", "asking for the signing bytes changes the dataset: %s", firstDiff(before, a))
		}
		want, n := refSigning(ds)
		c.EvN("lines", n)
		if string(got) != want {
			c.Fail("bytes", "signing bytes %s, want %s", quoteClip(got), quoteClip([]byte(want)))
		}
		// the deprecated form
		sb, err := ds.SignableBytes()
		if ds.Commit == nil || ds.Structure == nil {
			if err == nil {
				c.Fail("signable-missing", "SignableBytes of a dataset without commit or structure gives %s", quoteClip(sb))
			}
		} else {
			w := refRFC3339(ds.Commit.Timestamp.Unix()) + "\n" + ds.Structure.Checksum
			if err != nil || string(sb) != w {
				c.Fail("signable", "SignableBytes %s %v, want %s", quoteClip(sb), err, quoteClip([]byte(w)))
			}
		}
		if a := dump(ds); a != before {
			c.Fail("modified", "asking for the signable bytes changes the dataset")
		}
		c.Distinct(got)
		return got
	}
	r.Each("mix", r.Q(4000, 60000), func(c *Case) {
		ds := genSignable(c)
		b := sign(c, ds)
		if b2 := sign(c, cloneDoc(ds).(*dataset.Dataset)); !bytes.Equal(b, b2) {
			c.Fail("unequal", "equal datasets sign differently")
		}
		c.Sample("%q", b)
	})
	// what has to influence the bytes
	r.Each("change", r.Q(5000, 60000), func(c *Case) {
		ds := genSignable(c)
		ds.Commit = &dataset.Commit{Timestamp: signTime(c)}
		b := sign(c, ds)
		what := ""
		v := reflect.ValueOf(ds).Elem()
		comps := []string{"Meta", "Readme", "Structure", "Transform", "Stats", "Viz"}
		switch k := c.Rng.Intn(9); k {
		case 0:
			what, ds.ID = "ID", ds.ID+"x"
		case 1:
			what, ds.BodyPath = "BodyPath", ds.BodyPath+"x"
		case 2:
			what, ds.Commit.Timestamp = "Timestamp", ds.Commit.Timestamp.Add(time.Second*time.Duration(1+c.Rng.Intn(100000)))
		default:
			what = comps[k-3]
			f := v.FieldByName(what)
			if f.IsNil() {
				f.Set(reflect.New(f.Type().Elem()))
			}
			p := f.Elem().FieldByName("Path")
			p.SetString(p.String() + "x")
		}
		c.Ev("must_change")
		if bytes.Equal(b, sign(c, ds)) {
			c.Fail("unbound:"+what, "changing %s does not change the signing bytes", what)
		}
	})
	// what must not
	r.Each("keep", r.Q(5000, 60000), func(c *Case) {
		ds := genSignable(c)
		b := sign(c, ds)
		if ds.Commit != nil {
			ds.Commit.Timestamp = ds.Commit.Timestamp.In(time.FixedZone("q", (c.Rng.Intn(53)-26)*1800))
			if !ds.Commit.Timestamp.IsZero() {
				sub := ds.Commit.Timestamp.Nanosecond()
				ds.Commit.Timestamp = ds.Commit.Timestamp.Add(time.Duration(c.Rng.Intn(1e9) - sub))
			}
		}
		b2 := sign(c, ds)
		c.Ev("must_not_change")
		if !bytes.Equal(b, b2) {
			c.Fail("zone", "time zone or sub-second part changes the signing bytes: %s and %s", quoteClip(b), quoteClip(b2))
		}
		// fill in everything else
		other := genDataset(c.Rng, docOpts{full: 8, secrets: true, files: true})
		v, o := reflect.ValueOf(ds).Elem(), reflect.ValueOf(other).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			if f.Type.Kind() == reflect.Ptr {
				if v.Field(i).IsNil() && c.Rng.Intn(2) == 0 {
					v.Field(i).Set(reflect.New(f.Type.Elem()))
				}
				if !v.Field(i).IsNil() {
					e, oe := v.Field(i).Elem(), o.Field(i).Elem()
					for j := 0; j < e.NumField(); j++ {
						n := e.Type().Field(j)
						if n.PkgPath == "" && n.Name != "Path" && n.Name != "Timestamp" && c.Rng.Intn(2) == 0 {
							e.Field(j).Set(oe.Field(j))
						}
					}
				}
				continue
			}
			if f.Name != "ID" && f.Name != "BodyPath" {
				v.Field(i).Set(o.Field(i))
			}
		}
		b3 := sign(c, ds)
		c.Ev("must_not_change")
		if !bytes.Equal(b, b3) {
			c.Fail("influence", "fields other than ID, body path, commit time and component paths change the signing bytes: %s and %s", quoteClip(b), quoteClip(b3))
		}
	})
	// an empty dataset signs to nothing
	r.Each("empty", 1, func(c *Case) {
		if b := sign(c, &dataset.Dataset{}); len(b) != 0 {
			c.Fail("empty", "%q", b)
		}
		if b := sign(c, &dataset.Dataset{Commit: &dataset.Commit{Path: "/x", Title: "t"}, Path: "/ds"}); len(b) != 0 {
			c.Fail("empty", "%q", b)
		}
	})
}
