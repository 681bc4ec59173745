# planted changes in dsio and compression
SEEDS = []
def seed(**k): SEEDS.append(k)
_g = {}
exec(open("/verif/tools/seeds/a.py").read().split("seed(id=")[0], _g)
HDR = _g["HDR"]
ARR = 'map[string]interface{}{"type": "array"}'

seed(id="copy-unexpected-eof", prop="C07", needs="a reader that fails with io.ErrUnexpectedEOF", breaks="copying takes a body cut short for a complete one",
 edits=[("dsio/streams.go", "			if err == io.EOF {\n				break\n			}\n			return fmt.Errorf", "			if err == io.EOF || err == io.ErrUnexpectedEOF {\n				break\n			}\n			return fmt.Errorf")], pkg="dsio",
 test=HDR + '''
type failing struct{ n int }

func (f *failing) Structure() *dataset.Structure {
	return &dataset.Structure{Format: "json", Schema: %s}
}
func (f *failing) ReadEntry() (dsio.Entry, error) {
	if f.n++; f.n > 3 {
		return dsio.Entry{}, io.ErrUnexpectedEOF
	}
	return dsio.Entry{Index: f.n - 1, Value: f.n}, nil
}
func (f *failing) Close() error { return nil }

func TestPlantedDemo(t *testing.T) {
	var b bytes.Buffer
	f := &failing{}
	w, err := dsio.NewEntryWriter(f.Structure(), &b)
	if err != nil {
		t.Fatal(err)
	}
	if err := dsio.Copy(f, w); err == nil {
		t.Fatal("the failure is not reported")
	}
}
''' % ARR)

seed(id="readall-eof-suffix", prop="C06", needs="a body cut short, or a source failing with an error whose text ends in EOF, read by ReadAll", breaks="ReadAll returns part of the body without an error",
 edits=[("dsio/dsio.go", '''			if err.Error() == "EOF" {
				break
			}
			return nil, fmt.Errorf("entry %d: %w", i+1, err)''', '''			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
				break
			}
			return nil, fmt.Errorf("entry %d: %w", i+1, err)'''), ("dsio/dsio.go", '	"bytes"\n', '	"bytes"\n	"errors"\n')], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "cbor", Schema: %s}
	data := write(t, st, "a", "b", "c")
	rd, err := dsio.NewEntryReader(st, bytes.NewReader(data[:len(data)-1]))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := dsio.ReadAll(rd); err == nil {
		t.Fatalf("a body cut short is read as %%v", v)
	}
}
''' % ARR)

seed(id="identity-abandon", prop="C08", needs="a consumer that pauses for more than half a second between reads", breaks="the identity reader drops the rest of its entries",
 edits=[("dsio/identity.go", "			res <- Entry{Index: i, Value: val}\n", '''			// don't wait forever for a reader that's been abandoned
			select {
			case res <- Entry{Index: i, Value: val}:
			case <-time.After(200 * time.Millisecond):
			}
'''), ("dsio/identity.go", '	"io"\n', '	"io"\n	"time"\n')], pkg="dsio",
 test=HDR.replace('"testing"\n', '"testing"\n	"time"\n') + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: %s}
	rd, err := dsio.NewIdentityReader(st, []interface{}{"a", "b", "c"})
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for {
		if _, err := rd.ReadEntry(); err != nil {
			break
		}
		n++
		time.Sleep(700 * time.Millisecond)
	}
	if n != 3 {
		t.Fatalf("%%d entries delivered", n)
	}
}
''' % ARR)

seed(id="identity-map-nil", prop="C08", needs="a map with a nil value", breaks="pairs holding null are not delivered",
 edits=[("dsio/identity.go", "			res <- Entry{Key: key, Value: val}\n", '''			if ent := (Entry{Key: key, Value: val}); ent.Value != nil {
				res <- ent
			}
''')], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: map[string]interface{}{"type": "object"}}
	rd, err := dsio.NewIdentityReader(st, map[string]interface{}{"a": 1, "b": nil})
	if err != nil {
		t.Fatal(err)
	}
	m, err := dsio.ReadAll(rd)
	if err != nil || len(m.(map[string]interface{})) != 2 {
		t.Fatalf("%v %v", m, err)
	}
}
''')

seed(id="csv-bool-one", prop="C02", needs="a column without a header and text cells that look like JSON null", breaks="text cells reading null in an object column are delivered as an empty value",
 edits=[("dsio/csv.go", '''		case "object":
			v := map[string]interface{}{}
			if err := json.Unmarshal([]byte(str), &v); err == nil {
				vs[i] = v
			}''', '''		case "object":
			v := map[string]interface{}{}
			if err := json.NewDecoder(stdstrings.NewReader(str)).Decode(&v); err == nil {
				vs[i] = v
			}'''), ("dsio/csv.go", '	"strconv"\n', '	"strconv"\n	stdstrings "strings"\n')], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "csv", Schema: map[string]interface{}{"type": "array", "items": map[string]interface{}{"type": "array", "items": []interface{}{
		map[string]interface{}{"title": "a", "type": "object"}, map[string]interface{}{"title": "b", "type": "string"}}}}}
	got := readAll(t, st, strings.NewReader("\\"{} is empty\\",x\\n"))
	if !reflect.DeepEqual(got, []interface{}{[]interface{}{"{} is empty", "x"}}) {
		t.Fatalf("%#v", got)
	}
}
''')

seed(id="xlsx-letters", prop="C02", needs="a row of more than 702 columns", breaks="cells beyond column ZZ land in other columns",
 edits=[("dsio/xlsx.go", "			if part > 0 {\n				result += string(rune(part + 64))\n			}", "			if part > 0 && part < 26 {\n				result += string(rune(part + 64))\n			}")], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	seen := map[string]int{}
	for i := 0; i < 2000; i++ {
		l := dsio.ColIndexToLetters(i)
		if j, ok := seen[l]; ok {
			t.Fatalf("%s names columns %d and %d", l, j, i)
		}
		seen[l] = i
	}
}
''')

seed(id="paged-offset-eof", prop="C07", needs="a source that fails while entries before the page are skipped", breaks="a failure while skipping to the page is reported as the end of data",
 edits=[("dsio/streams.go", '''		_, err := r.Reader.ReadEntry()
		if err != nil {
			return Entry{}, err
		}
		r.Offset--''', '''		r.Offset--
		if _, err := r.Reader.ReadEntry(); err != nil {
			// nothing on this page
			r.Offset, r.Limit = 0, 0
			return Entry{}, io.EOF
		}''')], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Schema: %s}
	rd, err := dsio.NewEntryReader(st, strings.NewReader("[1,2,tru"))
	if err != nil {
		t.Fatal(err)
	}
	p := &dsio.PagedReader{Reader: rd, Offset: 5, Limit: 2}
	if _, err := p.ReadEntry(); err == nil || err == io.EOF {
		t.Fatalf("got %%v", err)
	}
}
''' % ARR)

seed(id="cbor-map-dup", prop="C05", needs="a CBOR document whose array claims more elements than follow", breaks="nested arrays cut short are taken for complete",
 edits=[("dsio/cbor.go", "		array = append(array, val)\n		if length > 0 {\n			length--\n		}", "		array = append(array, val)\n		if _, err := r.rdr.Peek(1); length > 0 && err == nil {\n			length--\n		} else if err != nil {\n			length = 0\n		}")], pkg="dsio",
 test=HDR + '''
func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "cbor", Schema: %s}
	data := write(t, st, []interface{}{"a", "b", "c"})
	for n := 1; n < len(data); n++ {
		rd, err := dsio.NewEntryReader(st, bytes.NewReader(data[:n]))
		if err != nil {
			continue
		}
		if v, err := dsio.ReadAll(rd); err == nil {
			t.Fatalf("cut to %%d bytes: %%v", n, v)
		}
	}
}
''' % ARR)

seed(id="json-close-compress", prop="C06", needs="a compressed JSON body of at least one entry, and a destination that fails at the last bytes", breaks="the failure to write the end of a compressed body is lost",
 edits=[("dsio/json.go", '''		return fmt.Errorf("error closing writer: %s", err.Error())
	}
	if w.close != nil {
		return w.close()
	}
	return nil
''', '''		return fmt.Errorf("error closing writer: %s", err.Error())
	}
	if w.close != nil {
		if err := w.close(); err != nil {
			log.Debug(err.Error())
		}
	}
	return nil
''')], pkg="dsio",
 test=HDR + '''
type full struct{ left int }

func (f *full) Write(p []byte) (int, error) {
	if f.left -= len(p); f.left < 0 {
		return 0, io.ErrShortWrite
	}
	return len(p), nil
}

func TestPlantedDemo(t *testing.T) {
	st := &dataset.Structure{Format: "json", Compression: "gzip", Schema: %s}
	w, err := dsio.NewEntryWriter(st, &full{left: 12})
	if err != nil {
		t.Fatal(err)
	}
	if err := w.WriteEntry(dsio.Entry{Value: "a"}); err != nil {
		return
	}
	if err := w.Close(); err == nil {
		t.Fatal("an incomplete document was closed without error")
	}
}
''' % ARR)

