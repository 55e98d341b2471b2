BUGS = []
def bug(id, prop, edits, needs, breaks, demo, race=False):
    if isinstance(edits, tuple): edits = [edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race))

bug('C01-float', 'C01', [('decoder.go', '	u := binary.BigEndian.Uint64(data)\n	f = math.Float64frombits(u)', '	if u := binary.BigEndian.Uint64(data); u<<1 != 0 {\n		f = math.Float64frombits(u)\n	}')],
 'negative zero', 'negative zero decodes as positive zero',
 '''
func TestZDemo(t *testing.T) {
	for _, u := range []uint64{0, 1 << 63, math.Float64bits(1.5), 0x7ff8000000000001, 0xfff0000000000000} {
		v := math.Float64frombits(u)
		b := zEnc(v)
		n, got := zDec(b, v)
		if f, ok := got.(float64); n != 8 || !ok || math.Float64bits(f) != u {
			t.Fatalf("%x decodes to %v", u, got)
		}
	}
}''')

bug('C02-compact-nullable-len', 'C02', ('encoder.go', '''		encodeVarInt(writer, VarInt(len(v)+1))
		writer.Write(v)''', '''		encodeVarInt(writer, VarInt(int16(len(v)+1)))
		writer.Write(v)'''),
 'compact bytes of 32767 bytes or more', 'long compact byte arrays get a negative length prefix and decode as null',
 '''
func TestZDemo(t *testing.T) {
	for _, n := range []int{0, 5, 127, 128, 8191, 32766, 32767, 40000, 70000} {
		v := CompactBytes(bytes.Repeat([]byte{7}, n))
		b := zEnc(v)
		next, got := zDec(b, v)
		g, ok := got.(CompactBytes)
		if next != len(b) || !ok || !bytes.Equal(g, v) {
			t.Fatalf("%d bytes decode to %d (next %d of %d)", n, len(g), next, len(b))
		}
	}
}''')

bug('C02-alias', 'C02', ('decoder.go', '''	inbound, unfilled := reader.Peek(next + int(count))
	if unfilled != nil {
		next = -1
		return
	}

	data = inbound[next:]''', '''	inbound, unfilled := reader.Peek(next + int(count))
	if unfilled != nil {
		next = -1
		return
	}

	data = inbound[next-1 : next+int(count)][1:]
	if count > 63 {
		data = inbound[next-2 : next+int(count)][1:]
	}'''),
 'a compact string or byte array of 64 bytes or more (two-byte length prefix)', 'the content decodes with the last byte of the length prefix in front',
 '''
func TestZDemo(t *testing.T) {
	for _, n := range []int{0, 1, 62, 63, 64, 200} {
		v := CompactString(bytes.Repeat([]byte{'x'}, n))
		b := zEnc(v)
		next, got := zDec(b, v)
		if next != len(b) || got != v {
			t.Fatalf("%d characters decode to %q", n, got)
		}
	}
}''')

bug('C03-stale-struct', 'C03', ('decoder.go', '''				pt := reflect.PointerTo(elem)
				pv := reflect.New(pt.Elem())
				pv.Elem().Set(reflect.ValueOf(v))
				obj = pv.Interface()''', '''				pt := reflect.PointerTo(elem)
				pv, seen := lastPointer[pt]
				if !seen {
					pv = reflect.New(pt.Elem())
					lastPointer[pt] = pv
				}
				pv.Elem().Set(reflect.ValueOf(v))
				obj = pv.Interface()''')
 , 'two decoded values with a pointer to the same structure type', 'a later message (or array element) overwrites the structure an earlier one points to', '''
type zInner struct{ N int32 }
type zOuter struct{ P *zInner }

func TestZDemo(t *testing.T) {
	var vs []zOuter
	for i := int32(1); i <= 3; i++ {
		vs = append(vs, zOuter{&zInner{i}})
	}
	b := zEnc(vs)
	n, got := zDec(b, vs)
	if n != len(b) || !reflect.DeepEqual(got, vs) {
		t.Fatalf("decoded array differs")
	}
}''')
BUGS[-1]['edits'].append(('decoder.go', '''func peekObject(reader *bufio.Reader,''', '''var lastPointer = map[reflect.Type]reflect.Value{}

func peekObject(reader *bufio.Reader,'''))

bug('C03-compact-array', 'C03', ('decoder.go', 'int(length-1), elem)', 'int(int8(length-1)), elem)'),
 'a compact array of 128 elements or more', 'long compact arrays decode as null or too short', '''
func TestZDemo(t *testing.T) {
	for _, n := range []int{0, 1, 64, 127, 128, 300} {
		v := zS{A: make([]int16, n)}
		for i := range v.A {
			v.A[i] = int16(i)
		}
		b := zEnc(v)
		next, got := zDec(b, v)
		if next != len(b) || !reflect.DeepEqual(got, v) {
			t.Fatalf("compact array of %d differs: next %d of %d", n, next, len(b))
		}
	}
}

type zS struct {
	A []int16 `kafka:"compact"`
	B int8
}''')

bug('C04-minimal', 'C04', ('encoder.go', '''func makeVarUint64(v uint64) []byte {
	vi := make([]byte, 0, 10)
	for {
		by := byte(v & 0x7F)
		if v > 0x7F {''', '''func makeVarUint64(v uint64) []byte {
	vi := make([]byte, 0, 10)
	for {
		by := byte(v & 0x7F)
		if v >= 0x7F {'''),
 'a value whose last group is 127', 'the encoding is not minimal: 127 takes two bytes', '''
func TestZDemo(t *testing.T) {
	for v, want := range map[VarUint64]int{0: 1, 126: 1, 127: 1, 128: 2, 16383: 2, 16384: 3, 1<<35 - 1: 5} {
		if b := zEnc(v); len(b) != want {
			t.Fatalf("%d takes %d bytes", v, len(b))
		}
	}
}''')

bug('C06-tags-alloc', 'C06', [('decoder.go', '''	t := map[int]any{}

	next, values := peekVarUint(reader, offset)
	if next < 0 {
		return
	}
''', '''	next, values := peekVarUint(reader, offset)
	if next < 0 {
		return
	}

	t := make(map[int]any, values)
''')], 'a tag section that claims very many fields', 'memory out of proportion to the input is allocated', '''
func TestZDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	r := bufio.NewReader(bytes.NewReader([]byte{0x80, 0x80, 0x80, 0x08, 1, 1, 1}))
	next, _ := peekTags(r, 0, map[int]*kafkaField{})
	runtime.ReadMemStats(&b)
	if next >= 0 {
		t.Fatal("incomplete tags decode")
	}
	if b.TotalAlloc-a.TotalAlloc > 1<<20 {
		t.Fatalf("%d bytes allocated for 7 bytes of input", b.TotalAlloc-a.TotalAlloc)
	}
}''')

bug('C06-neg-len', 'C06', ('decoder.go', '''	if length < 0 {
		return
	}

	start := next''', '''	if length == -1 {
		return
	}

	start := next'''), 'a byte array length prefix below -1', 'decoding panics with a slice fault', '''
func TestZDemo(t *testing.T) {
	for _, l := range []byte{0xff, 0xfe, 0xf0, 0x80} {
		zDec([]byte{0xff, 0xff, 0xff, l, 1, 2, 3}, NullableBytes{})
	}
}''')

bug('C07-order', 'C07', [('encoder.go', '	sort.Ints(ids)\n', '	sort.Slice(ids, func(i, j int) bool { return fmt.Sprint(ids[i]) < fmt.Sprint(ids[j]) })\n')],
 'tags of one and of two digits together', 'tagged fields are not written in ascending tag order', '''
func TestZDemo(t *testing.T) {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeTags(w, map[int]any{2: int8(1), 10: int8(2), 1: int8(3)})
	w.Flush()
	if want := []byte{3, 1, 1, 3, 2, 1, 1, 10, 1, 2}; !bytes.Equal(buf.Bytes(), want) {
		t.Fatalf("tags written as %v", buf.Bytes())
	}
}''')

bug('C07-taglen', 'C07', ('decoder.go', 'tl := int(taglen)', 'tl := int(taglen & 0xFF)'),
 'an unknown tagged field whose value is longer than 255 bytes', 'the field is cut and the fields after it are misread', '''
func TestZDemo(t *testing.T) {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	v := bytes.Repeat([]byte{9}, 300)
	encodeTags(w, map[int]any{1: string(v), 2: int8(5)})
	w.Flush()
	r := bufio.NewReader(bytes.NewReader(buf.Bytes()))
	next, tags := peekTags(r, 0, map[int]*kafkaField{2: {valType: reflect.TypeOf(int8(0))}})
	raw, _ := tags[1].([]byte)
	if next != buf.Len() || len(raw) != 302 || tags[2] != int8(5) {
		t.Fatalf("next %d of %d, %d bytes, tag 2 is %v", next, buf.Len(), len(raw), tags[2])
	}
}''')

bug('P01-lost-prefix', 'P01', ('kafka-client.go', '''		kc.inbound = kc.inbound[4+msg.Len():]
''', '''		kc.inbound = append([]byte{}, kc.inbound[4+msg.Len():]...)
		if len(kc.inbound) < 4 {
			kc.inbound = kc.inbound[:0] // not even a size yet
		}
'''), 'a segment that ends 1 to 3 bytes into the next request', 'the start of the next request is lost and the stream misread', '''
func TestZDemo(t *testing.T) {
	_, port := zStart()
	for cut := 0; cut <= 8; cut++ {
		c := zDial(t, port)
		one := zReq(12, 0, 1, zBeat)
		two := append(append([]byte{}, one...), zReq(12, 0, 2, zBeat)...)
		c.send(two[:len(one)+cut])
		time.Sleep(50 * time.Millisecond)
		c.send(two[len(one)+cut:])
		for i := int32(1); i <= 2; i++ {
			if corr, _, ok := c.frame(3 * time.Second); !ok || corr != i {
				t.Fatalf("cut %d: request %d is not answered", cut, i)
			}
		}
	}
}''')

bug('P01-stale', 'P01', [('kafka-client.go', '				if errors.Is(err, os.ErrDeadlineExceeded) {\n					continue', '				if kc.idle = errors.Is(err, os.ErrDeadlineExceeded); kc.idle {\n					continue'), ('kafka-client.go', '	stopping   atomic.Bool\n', '	stopping   atomic.Bool\n		idle       bool\n'),
 ('kafka-client.go', '			kc.inbound = append(kc.inbound, buffer[:n]...)\n', '			if kc.idle {\n				kc.idle, kc.inbound = false, kc.inbound[:0]\n			}\n			kc.inbound = append(kc.inbound, buffer[:n]...)\n')], 'a request that arrives in two parts more than a second apart', 'the first part is dropped', '''
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	b := zReq(12, 0, 1, zBeat)
	c.send(b[:6])
	time.Sleep(2500 * time.Millisecond)
	c.send(b[6:])
	if corr, _, ok := c.frame(3 * time.Second); !ok || corr != 1 {
		t.Fatal("not answered")
	}
}''')

bug('P01-size16', 'P01', ('inbound-utils.go', 'if len(inbound) < (int(msgSize) + 4) {', 'if len(inbound) < (int(uint16(msgSize)) + 4) {'),
 'a request of 65536 bytes or more', 'the request is acted on before it is complete (a crash)', '''
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	body := new(zW).str("g").i32(1).i32(1).str("").str("consumer").i32(1).str("p").bytes(make([]byte, 70000)).b
	c.send(zReq(11, 1, 1, body))
	if corr, _, ok := c.frame(3 * time.Second); !ok || corr != 1 {
		t.Fatal("not answered")
	}
}''')

bug('P02-corr', 'P02', ('kafka-message.go', 'int32(km.hdr.CorrelationId)', 'int32(uint32(km.hdr.CorrelationId)&0x7FFFFFFF)'),
 'a negative correlation id', 'the response carries another correlation id', '''
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	for _, id := range []int32{0, 1, -1, 1<<31 - 1, -1 << 31} {
		c.send(zReq(12, 0, id, zBeat))
		if corr, _, ok := c.frame(3 * time.Second); !ok || corr != id {
			t.Fatalf("correlation id %d answered with %d", id, corr)
		}
	}
}''')

bug('P02-async', 'P02', [('kafka-client.go', '''		func() {
			defer kc.requestWg.Done()
			if err := kc.dispatcher(reader, msg.Len()); err != nil {
				panic(err)
			}
		}()''', '''		work := func() {
			defer kc.requestWg.Done()
			if err := kc.dispatcher(reader, msg.Len()); err != nil {
				panic(err)
			}
		}
		if head := msg.Bytes(); len(head) > 1 && head[0] == 0 && head[1] == byte(ApiKeyFetch) {
			go work() // may wait for data
		} else {
			work()
		}''')], 'a request pipelined behind a fetch that waits', 'the later request is answered first', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	c.send(append(zReq(1, 2, 1, zFetchBody(500, zT{"t", []zP{{0, 0, 100}}})), zReq(12, 0, 2, zBeat)...))
	for i := int32(1); i <= 2; i++ {
		if corr, _, ok := c.frame(3 * time.Second); !ok || corr != i {
			t.Fatalf("response %d has correlation id %d", i, corr)
		}
	}
}''')

bug('P03-alias', 'P03', [('api-keys.go', '	for keyVer := range apiTable {\n', '	for keyVer, handler := range apiTable {\n'), ('api-keys.go', '			vr = versionRange{min: int16(ver), max: int16(ver)}\n', '			vr = versionRange{min: int16(ver), max: int16(ver)}\n			if kafkaApiKey(key) == ApiKeyHeartbeat {\n				apiTable[makeApiKey(ApiKeyHeartbeat, ver+1)] = handler // same layout\n			}\n')],
 'a request with the second heartbeat version', 'a version that is not advertised is answered (the range advertised is one of the two)', '''
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	r := c.call(18, nil, 5*time.Second)
	r.i16()
	adv := map[[2]int16]bool{}
	for n := r.i32(); n > 0; n-- {
		k, a, b := r.i16(), r.i16(), r.i16()
		for v := a; v <= b; v++ {
			adv[[2]int16{k, v}] = true
		}
	}
	for v := int16(0); v < 2; v++ {
		if os.Getenv("ZCHILD") == "" {
			cmd := exec.Command(os.Args[0], "-test.run=^TestZDemo$")
			cmd.Env = append(os.Environ(), fmt.Sprint("ZCHILD=", v))
			out, _ := cmd.CombinedOutput()
			if answered := strings.Contains(string(out), "ANSWERED"); answered != adv[[2]int16{12, v}] {
				t.Fatalf("heartbeat v%d: advertised %v, answered %v", v, adv[[2]int16{12, v}], answered)
			}
		} else if os.Getenv("ZCHILD") == fmt.Sprint(v) {
			c.send(zReq(12, v, 9, zBeat))
			if _, _, ok := c.frame(2 * time.Second); ok {
				fmt.Println("ANSWERED")
			}
		}
	}
}''')

bug('P03-version8', 'P03', ('kafka-client.go', 'k := makeApiKey(kafkaApiKey(hdr.RequestApiKey), int(hdr.RequestApiVersion))', 'k := makeApiKey(kafkaApiKey(hdr.RequestApiKey), int(int8(hdr.RequestApiVersion)))'),
 'an API version that equals a supported one modulo 256', 'an unsupported version is answered', '''
func TestZDemo(t *testing.T) {
	_, port := zStart()
	if os.Getenv("ZCHILD") != "" {
		c := zDial(t, port)
		c.send(zReq(12, 256, 9, zBeat))
		if _, _, ok := c.frame(2 * time.Second); ok {
			fmt.Println("ANSWERED")
		}
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestZDemo$")
	cmd.Env = append(os.Environ(), "ZCHILD=1")
	if out, _ := cmd.CombinedOutput(); strings.Contains(string(out), "ANSWERED") {
		t.Fatal("heartbeat v256 is answered")
	}
}''')

CHILD = '''
	if os.Getenv("ZCHILD") == "" {
		cmd := exec.Command(os.Args[0], "-test.run=^TestZDemo$")
		cmd.Env = append(os.Environ(), "ZCHILD=1")
		out, _ := cmd.CombinedOutput()
		if strings.Contains(string(out), "ANSWERED") {
			t.Fatal("a malformed request is answered")
		}
		return
	}
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	c.send(req)
	if _, _, ok := c.frame(2 * time.Second); ok {
		fmt.Println("ANSWERED")
	}
}'''
bug('P04-trailing', 'P04', ('kafka-client.go', '	if len(remaining) != 0 {', '	if len(remaining) > 3 {'),
 'one to three bytes left over after a request', 'the malformed request is answered', '''
func TestZDemo(t *testing.T) {
	req := zReq(12, 0, 3, append(append([]byte{}, zBeat...), 0))''' + CHILD)
bug('P04-short', 'P04', ('leave_group.go', '''	if _, err = readRequest[leaveGroupRequestV0](reader); err != nil {
		return
	}
''', '''	if _, err := readRequest[leaveGroupRequestV0](reader); err != nil {
		kc.l.Warnf("leave group: %v", err)
		reader.Discard(reader.Buffered())
	}
'''), 'a LeaveGroup request that is too short', 'it is answered as if it were well-formed', '''
func TestZDemo(t *testing.T) {
	req := zReq(13, 0, 3, new(zW).str("group").i16(5).b)''' + CHILD)

bug('D01-empty-key', 'D01', ('encoder.go', '''		Key:        record.Key,
		Value:      record.Value,
	}
''', '''		Key:        append([]byte(nil), record.Key...),
		Value:      record.Value,
	}
'''), 'a record posted with an empty (not null) key', 'the key is fetched as null', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, []byte{}, []byte("v"))
	m.SimplePost("t", 0, nil, []byte("v"))
	c := zDial(t, port)
	ms := c.fetch1("t", 0, 0)
	if len(ms) != 2 || ms[0].key == nil || ms[1].key != nil {
		t.Fatalf("null and empty keys are confused: %v", ms)
	}
}''')

bug('D01-time', 'D01', ('datastore.go', 'ts.UnixMilli()', 'ts.UnixNano() / 1e6'),
 'a timestamp before 1970 with a fraction of a millisecond, or outside 1678..2262', 'the fetched timestamp differs', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	c := zDial(t, port)
	for i, ts := range []time.Time{time.Unix(5, 123456789), time.Unix(-5, 123456789), time.Date(2500, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2, 1, 1, 0, 0, 0, 0, time.UTC)} {
		m.ExtendedPost("t", 0, nil, nil, nil, ts)
		if ms := c.fetch1("t", 0, int64(i)); len(ms) != 1 || ms[0].ts != ts.UnixMilli() {
			t.Fatalf("%v is fetched as %v", ts.UnixMilli(), ms)
		}
	}
}''')

bug('D01-offset32', 'D01', ('fetch.go', 'offset: int(par.FetchOffset), maxSize', 'offset: int(int32(par.FetchOffset)), maxSize'),
 'a fetch offset of 2^32 or more', 'records from the start are returned for an offset far past the end', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, []byte("v"))
	c := zDial(t, port)
	for _, o := range []int64{1, 1 << 31, 1 << 32, 1 << 40} {
		if ms := c.fetch1("t", 0, o); len(ms) != 0 {
			t.Fatalf("offset %d yields records", o)
		}
	}
}''')

bug('D02-exact', 'D02', ('encoder.go', 'if newSize > maxSize {', 'if newSize >= maxSize {'),
 'a byte limit that the records fill exactly', 'the last record that fits is held back', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, make([]byte, 10))
	m.SimplePost("t", 0, nil, make([]byte, 10))
	c := zDial(t, port)
	for limit, want := range map[int32]int{43: 0, 44: 1, 87: 1, 88: 2} {
		if ms := c.fetch(0, zT{"t", []zP{{0, 0, limit}}})[0].msgs; len(ms) != want {
			t.Fatalf("limit %d: %d records", limit, len(ms))
		}
	}
}''')

bug('D02-first', 'D02', ('encoder.go', 'if newSize > maxSize {', 'if newSize > maxSize && (msv1.totalSize > 0 || maxSize < 16) {'),
 'a first record larger than the byte limit', 'it is returned all the same, over the limit', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, make([]byte, 10))
	c := zDial(t, port)
	for limit, want := range map[int32]int{0: 0, 15: 0, 16: 0, 43: 0, 44: 1} {
		if ms := c.fetch(0, zT{"t", []zP{{0, 0, limit}}})[0].msgs; len(ms) != want {
			t.Fatalf("limit %d: %d records", limit, len(ms))
		}
	}
}''')

bug('D03-stale-topic', 'D03', ('fetch.go', '''	for _, topic := range request.Topics {
		kt := kc.ds.getTopic((topic.Topic))
''', '''	var kt *kafkaTopic
	for _, topic := range request.Topics {
		if found := kc.ds.getTopic((topic.Topic)); found != nil {
			kt = found
		}
'''), 'a topic that does not exist after one that does, in one fetch', 'the unknown topic is answered with the previous topic\'s records', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, []byte("v"))
	c := zDial(t, port)
	rs := c.fetch(0, zT{"t", []zP{{0, 0, 1000}}}, zT{"nope", []zP{{0, 0, 1000}}})
	if len(rs[0].msgs) != 1 || len(rs[1].msgs) != 0 {
		t.Fatalf("%v", rs)
	}
}''')

bug('D03-starve', 'D03', ('fetch.go', '''					if fd.ms.appendMessage(rec, fd.maxSize) {
						fd.offset++
						more = true
					}
''', '''					if !fd.ms.appendMessage(rec, fd.maxSize) {
						break // full
					}
					fd.offset++
					more = true
'''), 'several partitions with data, the earlier one with a record that does not fit', 'the partitions behind it are not filled: their entries come out empty', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for i := 0; i < 3; i++ {
		m.SimplePost("t", 0, nil, []byte("v"))
		m.SimplePost("t", 1, nil, []byte("v"))
	}
	c := zDial(t, port)
	rs := c.fetch(0, zT{"t", []zP{{0, 0, 1000}, {1, 0, 1000}}})
	if len(rs[0].msgs) != 3 || len(rs[1].msgs) != 3 {
		t.Fatalf("%v", rs)
	}
	rs = c.fetch(0, zT{"t", []zP{{0, 0, 10}, {1, 1, 1000}}})
	if len(rs[0].msgs) != 0 || len(rs[1].msgs) != 2 {
		t.Fatalf("%v", rs)
	}
}''')

bug('D04-backoff', 'D04', [('fetch.go', '''			time.Sleep(time.Millisecond * 20)
''', '''			time.Sleep(pause)
			pause += pause / 4
'''), ('fetch.go', '	hasOne := false\n', '	hasOne := false\n	pause := time.Millisecond * 20\n')],
 'a fetch that waits for seconds before data arrives or its time is over', 'the answer comes late, by up to a quarter of the time waited', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	for _, d := range []time.Duration{3100, 3500, 4000, 4500} {
		go func(d time.Duration) {
			time.Sleep(d * time.Millisecond)
			m.SimplePost("t", 0, nil, []byte("v"))
		}(d)
	}
	at := time.Now()
	for i := int64(0); i < 4; i++ {
		if rs := c.fetch(20000, zT{"t", []zP{{0, i, 100}}}); len(rs[0].msgs) == 0 {
			t.Fatal("no record")
		}
		if d := time.Since(at); i == 0 && d > 3300*time.Millisecond {
			t.Fatalf("the record comes %v after the fetch, 3.1 s after which it was posted", d)
		}
	}
}''')

bug('D04-cap', 'D04', ('fetch.go', '	expiration := time.Now().Add(time.Duration(request.MaxWaitMs) * time.Millisecond)\n', '	expiration := time.Now().Add(time.Duration(request.MaxWaitMs*1000) * time.Microsecond)\n'),
 'a maximum wait of more than 35 minutes (2^31 microseconds)', 'the wait time overflows and the fetch answers empty at once', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	for i, w := range []int32{1000, 2200000, 1<<31 - 1} {
		c.send(zReq(1, 2, 1, zFetchBody(w, zT{"t", []zP{{0, int64(i), 100}}})))
		time.Sleep(300 * time.Millisecond)
		m.SimplePost("t", 0, nil, []byte("v"))
		_, r, ok := c.frame(3 * time.Second)
		if !ok || len(zParseFetch(r)[0].msgs) != 1 {
			t.Fatalf("a fetch waiting up to %d ms does not get the record", w)
		}
	}
}''')

bug('D05-crc', 'D05', ('encoder.go', '''	return crc32.Update(0, crcTable, buf.Bytes()[16:])
''', '''	b := buf.Bytes()[16:]
	if len(b) > 4096 {
		b = b[:4096]
	}
	return crc32.Update(0, crcTable, b)
'''), 'a record of more than 4 KiB', 'its checksum covers only the first part', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, make([]byte, 10))
	m.SimplePost("t", 0, []byte("k"), bytes.Repeat([]byte{3}, 5000))
	c := zDial(t, port)
	for _, x := range c.fetch1("t", 0, 0) {
		if uint32(x.crc) != crc32.ChecksumIEEE(x.rest) {
			t.Fatalf("record %d: wrong checksum", x.offset)
		}
	}
}''')

bug('D06-partition8', 'D06', ('datastore.go', '	partition, exists := kp.Partitions[number]\n', '	number &= 0xFFFF // partition numbers are small\n	partition := kp.Partitions[number]\n	exists := partition != nil\n'), 'partition numbers that are equal modulo 65536', 'records of one partition appear in another', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, []byte("a"))
	m.SimplePost("t", 65536, nil, []byte("b"))
	c := zDial(t, port)
	if a, b := c.fetch1("t", 0, 0), c.fetch1("t", 65536, 0); len(a) != 1 || len(b) != 1 {
		t.Fatalf("%v %v", a, b)
	}
}''')

bug('D06-trim', 'D06', ('datastore.go', '''	kp.Records = append(kp.Records, record)
''', '''	kept := kp.Records
	if n := len(kept); n > 0 && kept[n-1].Timestamp == record.Timestamp && string(kept[n-1].Key) == string(key) && len(key) > 0 && len(value) == 0 {
		kept = kept[:n-1] // tombstone
	}
	kp.Records = append(kept, record)
'''), 'two records with the same key and timestamp in a row, the second without a value', 'the second replaces the first', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	at := time.Unix(9, 0)
	m.ExtendedPost("t", 0, []byte("k"), []byte("v"), nil, at)
	m.ExtendedPost("t", 0, []byte("k"), nil, nil, at)
	c := zDial(t, port)
	if ms := c.fetch1("t", 0, 0); len(ms) != 2 || string(ms[0].value) != "v" {
		t.Fatalf("%v", ms)
	}
}''')

bug('D07-equal', 'D07', ('list_offsets.go', 'if msg.Timestamp < p.Timestamp {', 'if msg.Timestamp <= p.Timestamp-1 && offset == 0 || msg.Timestamp == p.Timestamp && i == 0 {'),
 'a time equal to the first record\'s timestamp', 'the second record is reported', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for i := 1; i <= 3; i++ {
		m.ExtendedPost("t", 0, nil, nil, nil, time.UnixMilli(int64(i*10)))
	}
	c := zDial(t, port)
	for ts, want := range map[int64]int64{5: 0, 10: 0, 11: 1, 20: 1, 25: 2, 30: 2, 31: 3} {
		if _, _, o := c.listOffset("t", 0, ts); o != want {
			t.Fatalf("time %d: offset %d", ts, o)
		}
	}
}''')

bug('D07-negative', 'D07', ('list_offsets.go', '				if p.Timestamp == -1 {', '				if p.Timestamp == -1 || p.Timestamp < -2 {'),
 'a time before 1970 (below -2)', 'it is taken for "latest"', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for i := -3; i <= 3; i++ {
		m.ExtendedPost("t", 0, nil, nil, nil, time.UnixMilli(int64(i*10)))
	}
	c := zDial(t, port)
	for ts, want := range map[int64]int64{-40: 0, -30: 0, -15: 2, 0: 3, 25: 6} {
		if _, _, o := c.listOffset("t", 0, ts); o != want {
			t.Fatalf("time %d: offset %d", ts, o)
		}
	}
}''')

bug('D08-first-commit', 'D08', ('offset_commit.go', '				if offset < par.CommittedOffset {', '				if _, seen := kp.GroupCommittedOffsets[request.GroupId]; !seen || offset < par.CommittedOffset {'),
 'a negative first commit', 'the committed offset becomes negative instead of staying 0', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	c.commit("g", "t", 0, -5)
	if o := c.committed("g", "t", 0); o != 0 {
		t.Fatalf("committed offset %d", o)
	}
	c.commit("g", "t", 0, 3)
	if o := c.committed("g", "t", 0); o != 3 {
		t.Fatalf("committed offset %d", o)
	}
}''')

bug('D08-shared', 'D08', [('offset_commit.go', '''		rtopic := offsetCommitResponseTopic{
''', '''		var offset int64
		rtopic := offsetCommitResponseTopic{
'''), ('offset_commit.go', '				offset := kp.GroupCommittedOffsets[request.GroupId]\n', '				if o, seen := kp.GroupCommittedOffsets[request.GroupId]; seen {\n					offset = o\n				}\n')],
 'a commit request for several partitions of a topic, a later one without an earlier commit', 'the earlier partition\'s old offset is the bar for the later one, whose commit is lost', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	m.CreatePartitionTopics([]string{"t"}, 1)
	c := zDial(t, port)
	c.commit("g", "t", 0, 50)
	c.call(8, new(zW).str("g").i32(1).str("m").i64(-1).i32(1).str("t").i32(2).i32(0).i64(60).i16(-1).i32(1).i64(7).i16(-1).b, 5*time.Second)
	if a, b := c.committed("g", "t", 0), c.committed("g", "t", 1); a != 60 || b != 7 {
		t.Fatalf("committed offsets %d %d", a, b)
	}
}''')

bug('D09-create', 'D09', ('kafka-mock.go', '	kt := km.ds.getTopic(topic)\n	if kt != nil {\n', '	if kt := km.ds.createTopic(topic); kt != nil {\n'),
 'setting an offset on a topic that does not exist', 'the topic is created', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SetConsumerGroupOffset("nope", 0, "g", 5)
	c := zDial(t, port)
	r := c.call(3, new(zW).i32(1).str("nope").b, 5*time.Second)
	for n := r.i32(); n > 0; n-- {
		r.i32()
		r.str()
		r.i32()
		r.str()
	}
	r.i32()
	r.i32()
	if r.i16() != 3 {
		t.Fatal("the topic exists")
	}
}''')

bug('D09-back', 'D09', [('kafka-mock.go', '			kp.GroupCommittedOffsets[group] = offset\n', '''			if offset == 0 {
				delete(kp.GroupCommittedOffsets, group)
			} else if offset > 0 {
				kp.GroupCommittedOffsets[group] = offset
			}
''')], 'a negative offset set directly', 'it is ignored', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	for _, x := range []int64{5, 3, 0, 9, -1} {
		m.SetConsumerGroupOffset("t", 0, "g", x)
		if o := c.committed("g", "t", 0); o != x {
			t.Fatalf("set %d, fetched %d", x, o)
		}
	}
}''')

bug('D10-create', 'D10', ('offset_fetch.go', '		kt := kc.ds.getTopic(rt.Name)\n', '		kt := kc.ds.createTopic(rt.Name)\n'),
 'an offset fetch for a topic that does not exist', 'the topic is created', '''
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	c.committed("g", "nope", 0)
	r := c.call(3, new(zW).i32(1).str("nope").b, 5*time.Second)
	for n := r.i32(); n > 0; n-- {
		r.i32()
		r.str()
		r.i32()
		r.str()
	}
	r.i32()
	r.i32()
	if r.i16() != 3 {
		t.Fatal("the topic exists")
	}
}''')

bug('D10-error', 'D10', [('offset_commit.go', '		for _, par := range topic.Partitions {\n			rpar := offsetCommitResponsePartition{\n				PartitionIndex: par.PartitionIndex,\n			}\n', '		rpar := offsetCommitResponsePartition{}\n		for _, par := range topic.Partitions {\n			rpar.PartitionIndex = par.PartitionIndex\n')],
 'a commit to a partition that exists behind one that does not', 'the existing one is reported unknown too', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	r := c.call(8, new(zW).str("g").i32(1).str("m").i64(-1).i32(1).str("t").i32(2).i32(9).i64(6).i16(-1).i32(0).i64(7).i16(-1).b, 5*time.Second)
	r.i32()
	r.str()
	r.i32()
	r.i32()
	a := r.i16()
	r.i32()
	if b := r.i16(); a != 3 || b != 0 {
		t.Fatalf("errors %d %d", a, b)
	}
}''')

bug('G01-port', 'G01', ('find_coordinator.go', 'Port:   int32(kc.serverPort),', 'Port:   int32(int16(kc.serverPort)),'),
 'a server port above 32767', 'the coordinator\'s port is negative', '''
func TestZDemo(t *testing.T) {
	var m *KafkaMock
	for port := uint(40001); port < 40100; port++ {
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err != nil {
			continue
		}
		l.Close()
		m = NewKafkaMock(lane.NewNullLane(nil), port)
		m.Start()
		c := zDial(t, port)
		r := c.call(10, new(zW).str("k").b, 5*time.Second)
		r.i16()
		r.i32()
		r.str()
		if p := r.i32(); p != int32(port) {
			t.Fatalf("port %d is told as %d", port, p)
		}
		return
	}
}'''.replace('lane.NewNullLane(nil)', 'zLane()'))

bug('G02-one', 'G02', ('sync_group.go', 'if len(request.Assignments) != 0 {', 'if len(request.Assignments) > 1 {'),
 'a sync request with exactly one assignment', 'it is answered instead of rejected', '''
func TestZDemo(t *testing.T) {
	req := zReq(14, 0, 3, new(zW).str("g").i32(1).str("m").i32(1).str("m").bytes([]byte{1}).b)''' + CHILD)

bug('G03-leave', 'G03', [('leave_group.go', '''	if _, err = readRequest[leaveGroupRequestV0](reader); err != nil {
		return
	}
''', '''	request, err := readRequest[leaveGroupRequestV0](reader)
	if err != nil {
		return
	}

	// nobody is left in the group
	kc.ds.mu.Lock()
	for _, kt := range kc.ds.Topics {
		for _, kp := range kt.Partitions {
			kp.lock()
			if kp.GroupCommittedOffsets[request.GroupId] > int64(len(kp.Records)) {
				kp.GroupCommittedOffsets[request.GroupId] = int64(len(kp.Records))
			}
			kp.unlock()
		}
	}
	kc.ds.mu.Unlock()
''')], 'a group that committed past the end and leaves', 'its committed offset is changed', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, nil)
	c := zDial(t, port)
	c.commit("g", "t", 0, 7)
	c.call(13, new(zW).str("g").str("m").b, 5*time.Second)
	if o := c.committed("g", "t", 0); o != 7 {
		t.Fatalf("committed offset %d", o)
	}
}''')

bug('G03-member', 'G03', [('join_group.go', '	_, err = readRequest[joinGroupRequestV1](reader)\n', '	request, err := readRequest[joinGroupRequestV1](reader)\n'), ('join_group.go', '	response = &joinGroupResponseV1{\n', '	var errCode int16\n	if request.SessionTimeoutMs > request.RebalanceTimeoutMs && request.RebalanceTimeoutMs < 0 {\n		errCode = 26 // invalid session timeout\n	}\n\n	response = &joinGroupResponseV1{\n		ErrorCode:    errCode,\n')],
 'a join with a negative rebalance timeout', 'it is answered with an error', '''
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	for _, r := range []int32{0, 30000, -1} {
		if e := c.call(11, new(zW).str("g").i32(1000).i32(r).str("").str("consumer").i32(0).b, 5*time.Second).i16(); e != 0 {
			t.Fatalf("error %d with rebalance timeout %d", e, r)
		}
	}
}''')

RACE = '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, nil)
	c := zDial(t, port)
	c.beat()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 300; i++ {
			m.SimplePost(fmt.Sprint("t", i), i, nil, nil)
			m.SimplePost("t", 0, nil, nil)
			m.SetConsumerGroupOffset("t", 0, fmt.Sprint("g", i), 1)
		}
	}()
	for i := 0; i < 300; i++ {
		%s
	}
	wg.Wait()
}'''
bug('L01-gettopic', 'L01', ('datastore.go', '''func (ds *kafkaDataStore) getTopic(name string) *kafkaTopic {
	ds.mu.Lock()
	defer ds.mu.Unlock()

''', '''func (ds *kafkaDataStore) getTopic(name string) *kafkaTopic {
'''), 'a request while a topic is created', 'the topic map is read without its lock', RACE % 'c.fetch1("t", 0, 0)', race=True)
bug('L01-committed', 'L01', ('datastore.go', '''func (kp *kafkaPartition) groupCommittedOffset(group string) int64 {
	kp.mu.Lock()
	defer kp.mu.Unlock()

	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
''', '''func (kp *kafkaPartition) groupCommittedOffset(group string) int64 {
	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.mu.Lock()
		defer kp.mu.Unlock()
'''), 'an offset fetch while an offset is set or committed', 'the offset map is read without its lock', RACE % 'c.committed("g", "t", 0)', race=True)
bug('L01-fetch', 'L01', ('fetch.go', '''				fd.kp.lock()
				if fd.offset >= 0 && fd.offset < len(fd.kp.Records) {
					rec = fd.kp.Records[fd.offset]
				}
				fd.kp.unlock()
''', '''				if fd.offset >= 0 && fd.offset < len(fd.kp.Records) {
					fd.kp.lock()
					rec = fd.kp.Records[fd.offset]
					fd.kp.unlock()
				}
'''), 'a fetch while a record is posted to the same partition', 'the record list is read without its lock', RACE % 'c.fetch1("t", 0, int64(i)*1000)', race=True)

bug('L02-commit', 'L02', ('offset_commit.go', '''				kp.lock()
				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
''', '''				offset := kp.groupCommittedOffset(request.GroupId)
				kp.lock()
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
'''), 'two commits for the same group and partition at the same time', 'the lower one may overwrite the higher one', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	var cs []*zC
	for i := 0; i < 8; i++ {
		cs = append(cs, zDial(t, port))
		cs[i].beat()
	}
	for round := 0; round < 3000; round++ {
		g := fmt.Sprint("g", round)
		for i, c := range cs {
			c.send(zReq(8, 2, 1, zCommitBody(g, "t", 0, int64(i+1))))
		}
		for _, c := range cs {
			c.frame(3 * time.Second)
		}
		if o := cs[0].committed(g, "t", 0); o != 8 {
			t.Fatalf("round %d: committed offset %d", round, o)
		}
	}
}''')

bug('L02-topic', 'L02', ('datastore.go', '''	ds.mu.Lock()
	defer ds.mu.Unlock()

	topic, exists := ds.Topics[name]
	if !exists {
		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
		}
		ds.Topics[name] = topic
''', '''	topic := ds.getTopic(name)
	if topic == nil {
		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
		}
		ds.mu.Lock()
		defer ds.mu.Unlock()
		ds.Topics[name] = topic
'''), 'two goroutines that create the same topic at the same time', 'one topic replaces the other, with the records posted to it', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	c := zDial(t, port)
	runtime.GOMAXPROCS(8)
	for round := 0; round < 20000; round++ {
		topic := fmt.Sprint("t", round)
		var wg, ready sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			ready.Add(1)
			go func() {
				defer wg.Done()
				ready.Done()
				<-start
				m.SimplePost(topic, 0, nil, nil)
			}()
		}
		ready.Wait()
		close(start)
		wg.Wait()
		if _, _, o := c.listOffset(topic, 0, -1); o != 8 {
			t.Fatalf("round %d: %d records", round, o)
		}
	}
}''')

bug('L02-deadlock', 'L02', [('datastore.go', '''		kp.Partitions[number] = partition
	}
''', '''		kp.Partitions[number] = partition
	} else {
		partition.mu.Lock()
		partition.Timestamp = time.Now().UnixMilli()
		partition.mu.Unlock()
	}
'''), ('offset_commit.go', '''					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
''', '''					if kt.getPartition(par.PartitionIndex) == kp {
						kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
					}
''')], 'a commit and a post to the same partition at the same time', 'they take the two locks in opposite order and block for ever', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	zWithin(t, 60*time.Second, "blocked for ever", func() {
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 30000; k++ {
					m.CreatePartitionTopics([]string{"t"}, 0)
				}
			}()
		}
		for i := int64(1); i < 5000; i++ {
			c.commit("g", "t", 0, i)
		}
		wg.Wait()
	})
}''')

bug('L03-open', 'L03', ('kafka-client.go', '''				// don't accept more requests
				kc.conn.Close()
				return''', '''				// don't accept more requests
				if len(kc.inbound) == 0 {
					kc.conn.Close()
				}
				return'''), 'a client in the middle of sending a request when the server stops', 'its connection stays open', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	c := zDial(t, port)
	c.beat()
	c.send(zReq(12, 0, 1, zBeat)[:7])
	time.Sleep(100 * time.Millisecond)
	zWithin(t, 10*time.Second, "stopping does not complete", func() { m.RequestStop(); m.WaitForTermination() })
	if !c.closed(2 * time.Second) {
		t.Fatal("the connection is still open")
	}
	runtime.KeepAlive(m)
}''')

bug('L04-prune', 'L04', [('kafka-mock.go', '''		km.active.Wait()
		km.started.Store(false)
''', '''		km.active.Wait()
		km.started.Store(km.ds.prune())
'''), ('datastore.go', '''func (ds *kafkaDataStore) getTopic(''', '''// Forgets the topics nothing was posted to
func (ds *kafkaDataStore) prune() (inUse bool) {
	ds.mu.Lock()
	defer ds.mu.Unlock()

	for name, kt := range ds.Topics {
		if len(kt.Partitions) == 1 && kt.Partitions[0] != nil && len(kt.Partitions[0].Records) == 0 {
			delete(ds.Topics, name)
		}
	}
	return
}

func (ds *kafkaDataStore) getTopic(''')], 'a topic without records before a restart', 'the topic and its committed offsets are gone afterwards', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	m.SetConsumerGroupOffset("t", 0, "g", 5)
	m.Restart()
	if o := zDial(t, port).committed("g", "t", 0); o != 5 {
		t.Fatalf("committed offset %d", o)
	}
}''')

bug('L05-number', 'L05', ('kafka-mock.go', '		cxnNumber++\n', '		cxnNumber = len(km.clients) + 1\n'),
 'a client that connects after an earlier one of several left', 'its registration replaces another client\'s', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	a, b := zDial(t, port), zDial(t, port)
	a.beat()
	b.beat()
	a.conn.Close()
	time.Sleep(300 * time.Millisecond)
	c := zDial(t, port)
	c.beat()
	m.mu.Lock()
	n := len(m.clients)
	m.mu.Unlock()
	if n != 2 {
		t.Fatalf("%d clients are registered", n)
	}
}''')

bug('L06-long', 'L06', ('fetch.go', '			if isClosed {\n', '			if isClosed && request.MaxWaitMs < 60000 {\n'),
 'a fetch waiting with a maximum of a minute or more when the mock is told to finish', 'it is not answered', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	for _, w := range []int32{20000, 100000} {
		c := zDial(t, port)
		c.send(zReq(1, 2, 1, zFetchBody(w, zT{"t", []zP{{0, 0, 100}}})))
		time.Sleep(200 * time.Millisecond)
		m.FinishRequests()
		if _, _, ok := c.frame(3 * time.Second); !ok {
			t.Fatalf("a fetch waiting %d ms is not answered", w)
		}
		zWithin(t, 10*time.Second, "restart", m.Restart)
	}
}''')

bug('L06-accept', 'L06', ('kafka-mock.go', '''			connection.Close()
			continue
''', '''			continue
'''), 'a client that connects after the mock is told to finish', 'its connection hangs', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	zDial(t, port).beat()
	m.FinishRequests()
	c := zDial(t, port)
	c.send(zReq(12, 0, 1, zBeat))
	if !c.closed(3 * time.Second) {
		t.Fatal("the connection is not closed")
	}
	zWithin(t, 10*time.Second, "stopping does not complete", func() { m.RequestStop(); m.WaitForTermination() })
}''')

bug('L07-idle', 'L07', [('kafka-client.go', '''	for {
		if kc.latency != 0 {''', '''	idle := 0
	for {
		if kc.latency != 0 {'''), ('kafka-client.go', '''				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
''', '''				if errors.Is(err, os.ErrDeadlineExceeded) {
					if idle++; idle < 10 {
						continue
					}
					kc.l.Tracef("client %d is idle", kc.clientPort)
					kc.conn.Close()
					return
				}
''')], 'a client silent for ten seconds in all', 'its connection is closed', '''
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	c.beat()
	time.Sleep(12 * time.Second)
	c.beat()
}''')

bug('L07-reset', 'L07', ('kafka-client.go', '	return err != nil\n', '	return err != nil || f.Close() == nil && len(kc.inbound) > 0\n'),
 'a client that resets its connection with requests pipelined behind the one being answered', 'the failed write is taken for an error of the server: the process panics', '''
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	for i := 0; i < 5; i++ {
		c := zDial(t, port)
		var b []byte
		b = append(b, zReq(1, 2, 1, zFetchBody(300, zT{"t", []zP{{0, 0, 100}}}))...)
		for k := int32(0); k < 3; k++ {
			b = append(b, zReq(12, 0, k, zBeat)...)
		}
		c.send(b)
		time.Sleep(50 * time.Millisecond)
		c.conn.(*net.TCPConn).SetLinger(0)
		c.conn.Close()
		time.Sleep(500 * time.Millisecond)
	}
	zDial(t, port).beat()
}''')

bug('C01-padding', 'C01', ('decoder.go', """		varuint = varuint | (VarUint64(by&0x7F) << shift)
		if (by & 0x80) == 0 {
			return
		}
""", """		if by == 0x80 {
			continue // nothing in this group
		}
		varuint |= VarUint64(by&0x7F) << shift
		if (by & 0x80) == 0 {
			return
		}
"""), 'a 64-bit variable-length value with a group of seven zero bits below its top one', 'it decodes as a smaller value', """
func TestZDemo(t *testing.T) {
	for _, v := range []VarUint64{0, 1, 127, 128, 300, 16384, 1 << 35, 1<<35 + 1} {
		b := zEnc(v)
		if n, got := zDec(b, v); n != len(b) || got != v {
			t.Fatalf("%d decodes to %v", v, got)
		}
	}
}""")

bug('C01-uint', 'C01', ('decoder.go', """		var v uint32
		next, v = peekUint32(reader, offset)
		obj = uint(v)
""", """		var v int32
		next, v = peekInt32(reader, offset)
		obj = uint(v)
"""), 'a uint of 2^31 or more', 'it decodes as a number beyond 2^63', """
func TestZDemo(t *testing.T) {
	for _, v := range []uint{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		b := zEnc(v)
		if n, got := zDec(b, v); n != len(b) || got != v {
			t.Fatalf("%d decodes to %v", v, got)
		}
	}
}""")

bug('C04-empty-null', 'C04', ('encoder.go', """	if v == nil {
		encodeVarInt(writer, 0)
	} else {
		encodeVarInt(writer, VarInt(len(v)+1))
		writer.Write(v)
""", """	if len(v) == 0 && cap(v) == 0 {
		encodeVarInt(writer, 0)
	} else {
		encodeVarInt(writer, VarInt(len(v)+1))
		writer.Write(v)
"""), 'compact bytes that are empty without being nil', 'they are written as null', """
func TestZDemo(t *testing.T) {
	if b := zEnc(CompactNullableBytes(nil)); len(b) != 1 || b[0] != 0 {
		t.Fatalf("null is written as %v", b)
	}
	if b := zEnc(CompactNullableBytes{}); len(b) != 1 || b[0] != 2 {
		t.Fatalf("empty is written as %v", b)
	}
}""")

bug('C05-eof', 'C05', [('decoder.go', """	count--
	inbound, unfilled := reader.Peek(next + int(count))
	if unfilled != nil {
""", """	count--
	inbound, unfilled := reader.Peek(next + int(count))
	if unfilled == io.EOF {
"""), ('decoder.go', """	"fmt"
	"math"
""", """	"fmt"
	"io"
	"math"
""")], 'compact bytes or a compact string longer than the read buffer, cut off', 'the part that is there is returned as the value', """
func TestZDemo(t *testing.T) {
	v := CompactString(strings.Repeat("x", 6000))
	b := zEnc(v)
	if n, got := zDec(b[:5000], v); n >= 0 {
		t.Fatalf("an incomplete string decodes to %d characters", len(got.(CompactString)))
	}
	if n, got := zDec(b[:3000], v); n >= 0 {
		t.Fatalf("an incomplete string decodes to %d characters", len(got.(CompactString)))
	}
}""")

bug('C05-array-end', 'C05', ('decoder.go', """			next, item = peekObject(reader, next, elem)
			if next < 0 {
				return
			}
			if item == nil {
""", """			at := next
			next, item = peekObject(reader, at, elem)
			if next < 0 {
				if _, end := reader.Peek(at + 1); end != nil && i > 1 {
					// the rest was left out
					next, obj = at, a.Interface()
				}
				return
			}
			if item == nil {
"""), 'an array cut off exactly behind an element, the second at the earliest', 'the elements that are there are returned as the array', """
func TestZDemo(t *testing.T) {
	v := []int16{1, 2, 3, 4}
	b := zEnc(v)
	for k := 0; k < len(b); k++ {
		if n, got := zDec(b[:k], v); n >= 0 {
			t.Fatalf("%d of %d bytes decode to %v", k, len(b), got)
		}
	}
}""")

bug('P02-retry', 'P02', [('kafka-client.go', '	if err = km.send(buf.Bytes()); err != nil {', """	if kc.answered[0] == kmh.CorrelationId && kc.answered[1] == int(kmh.RequestApiKey) {
		return // a repeated request
	}
	kc.answered = [2]int{kmh.CorrelationId, int(kmh.RequestApiKey)}
	err = km.send(buf.Bytes())
	if err != nil {"""), ('kafka-client.go', '	stopping   atomic.Bool\n', '	stopping   atomic.Bool\n		answered   [2]int\n')],
 'two requests in a row with the same API and correlation id', 'the second is not answered', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	for i := 0; i < 3; i++ {
		c.send(zReq(12, 0, 7, zBeat))
		if corr, _, ok := c.frame(3 * time.Second); !ok || corr != 7 {
			t.Fatalf("request %d is not answered", i)
		}
	}
}""")

bug('L03-partial', 'L03', ('kafka-client.go', """				// don't accept more requests
				kc.conn.Close()
				return
""", """				// don't accept more requests
				if len(kc.inbound) == 0 {
					kc.conn.Close()
					return
				}
"""), 'a client that has sent a part of a request when the stop comes', 'its connection stays open and termination waits for it', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	c := zDial(t, port)
	c.beat()
	c.send(zReq(12, 0, 1, zBeat)[:7])
	time.Sleep(100 * time.Millisecond)
	zWithin(t, 10*time.Second, "stopping does not complete", func() {
		m.RequestStop()
		m.WaitForTermination()
	})
}""")

bug('L04-ahead', 'L04', [('kafka-mock.go', """	km.clients = map[int]*kafkaClient{}
	km.stopped.Store(false)
""", """	km.ds.validate()
	km.clients, km.listener = map[int]*kafkaClient{}, nil
	km.stopped.Store(false)
"""), ('datastore.go', '''func (ds *kafkaDataStore) getTopic(''', '''// Moves committed offsets that have no record yet back to the end
func (ds *kafkaDataStore) validate() {
	ds.mu.Lock()
	defer ds.mu.Unlock()

	for _, kt := range ds.Topics {
		for _, kp := range kt.Partitions {
			for group, offset := range kp.GroupCommittedOffsets {
				kp.GroupCommittedOffsets[group] = min(offset, int64(len(kp.Records)))
			}
		}
	}
}

func (ds *kafkaDataStore) getTopic(''')], 'a committed offset beyond the records before a restart', 'it is a different one after the restart', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	m.SimplePost("t", 0, nil, nil)
	m.SetConsumerGroupOffset("t", 0, "g", 5)
	m.Restart()
	if o := zDial(t, port).committed("g", "t", 0); o != 5 {
		t.Fatalf("committed offset %d", o)
	}
}""")

bug('L08-port', 'L08', [('metadata.go', 'Port: int32(kc.serverPort)}', 'Port: int32(brokerPort)}'), ('kafka-mock.go', """	initializeApis()

	return &KafkaMock{
""", """	initializeApis()
	brokerPort = serverPort

	return &KafkaMock{
"""), ('kafka-mock.go', """func NewKafkaMock(""", """var brokerPort uint // the port clients are told

func NewKafkaMock(""")], 'a second mock created in the same process', "metadata of the first mock leads its clients to the second one", """
func TestZDemo(t *testing.T) {
	a, pa := zNew()
	a.Start()
	a.CreatePartitionTopics([]string{"t"}, 0)
	_, _ = zStart()
	r := zDial(t, pa).call(3, new(zW).i32(1).str("t").b, 5*time.Second)
	r.i32()
	r.i32()
	r.str()
	if p := r.i32(); p != int32(pa) {
		t.Fatalf("port %d instead of %d", p, pa)
	}
}""", True)

bug('L08-finish', 'L08', [('kafka-mock.go', """func (km *KafkaMock) FinishRequests() {
	km.cancelFn()
""", """func (km *KafkaMock) FinishRequests() {
	finished.Add(1) // wakes the waiting fetches
	km.cancelFn()
"""), ('kafka-mock.go', """func NewKafkaMock(""", """var finished atomic.Int32

func NewKafkaMock("""), ('fetch.go', """	hasOne := false
	for {
""", """	hasOne := false
	epoch := finished.Load()
	for {
"""), ('fetch.go', "if hasOne || time.Now().After(expiration) {", "if hasOne || finished.Load() != epoch || time.Now().After(expiration) {")], 'one mock told to finish while a fetch waits at another one', 'the fetch at the other mock is answered empty before its time', """
func TestZDemo(t *testing.T) {
	a, pa := zNew()
	a.Start()
	b, pb := zNew()
	b.Start()
	b.CreatePartitionTopics([]string{"t"}, 0)
	zDial(t, pa).beat()
	c := zDial(t, pb)
	c.send(zReq(1, 2, 1, zFetchBody(5000, zT{"t", []zP{{0, 0, 100}}})))
	time.Sleep(200 * time.Millisecond)
	a.FinishRequests()
	if _, _, ok := c.frame(2 * time.Second); ok {
		t.Fatal("the waiting fetch was answered")
	}
}""", True)

bug('L09-slots', 'L09', [('fetch.go', """	hasOne := false
	for {
""", """	var hasOne bool
	for fetchSlots <- struct{}{}; ; {
"""), ('fetch.go', """	frv2 := fetchResponseV2{
		Responses: make([]fetchResponse, 0, len(request.Topics)),
	}
""", """	<-fetchSlots

	frv2 := fetchResponseV2{
		Responses: make([]fetchResponse, 0, len(request.Topics)),
	}
"""), ('fetch.go', "func fetchV2(", """// limits the load of polling
var fetchSlots = make(chan struct{}, 32)

func fetchV2(""")], 'more than 32 fetches that wait at the same time', 'the 33rd is not looked at until another has ended, even if its data is there', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	m.SimplePost("u", 0, nil, []byte{1})
	for i := 0; i < 40; i++ {
		zDial(t, port).send(zReq(1, 2, 1, zFetchBody(20000, zT{"t", []zP{{0, 0, 100}}})))
	}
	time.Sleep(300 * time.Millisecond)
	c := zDial(t, port)
	c.send(zReq(1, 2, 1, zFetchBody(0, zT{"u", []zP{{0, 0, 100}}})))
	if _, _, ok := c.frame(3 * time.Second); !ok {
		t.Fatal("not answered")
	}
}""")

bug('L09-send', 'L09', [('kafka-client.go', """	// message fully processed
	w.Flush()
""", """	// message fully processed - responses go out one at a time, in the order they were made
	w.Flush()
	kc.ds.sending.Lock()
	defer kc.ds.sending.Unlock()
"""), ('datastore.go', """		mu     sync.Mutex
		Topics map[string]*kafkaTopic
""", """		mu      sync.Mutex
		sending sync.Mutex
		Topics  map[string]*kafkaTopic
""")], 'a client that does not read a large response', 'nobody else gets a response', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, make([]byte, 8<<20))
	c := zDial(t, port)
	for i := 0; i < 6; i++ {
		c.send(zReq(1, 2, 1, zFetchBody(0, zT{"t", []zP{{0, 0, 1 << 24}}})))
	}
	time.Sleep(time.Second)
	zDial(t, port).beat()
	c.conn.Close()
}""")

bug('L09-limit', 'L09', [('kafka-mock.go', """		km.mu.Lock()
		cxnNumber++
""", """		km.mu.Lock()
		cxnNumber += 1
		if len(km.clients) >= 100 {
			// make room: the one that has been here longest
			oldest := cxnNumber
			for n := range km.clients {
				oldest = min(oldest, n)
			}
			km.clients[oldest].conn.Close()
		}
""")], 'more than 100 clients at once', 'the oldest is disconnected', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	first := zDial(t, port)
	first.beat()
	var rest []*zC
	for i := 0; i < 120; i++ {
		c := zDial(t, port)
		c.beat()
		rest = append(rest, c)
	}
	first.beat()
	rest[0].beat()
}""")

bug('G04-end', 'G04', [('datastore.go', """	offset, exists := kp.GroupCommittedOffsets[group]
	if !exists {
		kp.GroupCommittedOffsets[group] = 0
	}
	return offset
""", """	offset, committed := kp.GroupCommittedOffsets[group]
	if !committed {
		kp.GroupCommittedOffsets[group] = 0
	} else if n := int64(len(kp.Records)); n > 1 && offset == n {
		// nothing new since: hand out the last record rather than wait
		return offset - 1
	}
	return offset
""")], 'a group that has committed everything of a partition with several records reconnects', 'it reads the last record again', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, []byte{1})
	m.SimplePost("t", 0, nil, []byte{2})
	c := zDial(t, port)
	c.commit("g", "t", 0, 2)
	if o := zDial(t, port).committed("g", "t", 0); o != 2 {
		t.Fatalf("the group goes on at %d", o)
	}
}""")

bug('G04-leave', 'G04', [('leave_group.go', """	if _, err = readRequest[leaveGroupRequestV0](reader); err != nil {
		return
	}
""", """	request, err := readRequest[leaveGroupRequestV0](reader)
	if err != nil {
		return
	}

	// nobody is left in the group: forget groups that never read anything
	kc.ds.mu.Lock()
	for _, kt := range kc.ds.Topics {
		kt.mu.Lock()
		for _, kp := range kt.Partitions {
			kp.lock()
			if kp.GroupCommittedOffsets[request.GroupId] >= int64(len(kp.Records)) && len(kp.Records) < 2 {
				delete(kp.GroupCommittedOffsets, request.GroupId)
			}
			kp.unlock()
		}
		kt.mu.Unlock()
	}
	kc.ds.mu.Unlock()
""")], 'leaving a group after reading the one record of a partition', 'the record is read again', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, []byte{1})
	c := zDial(t, port)
	c.commit("g", "t", 0, 1)
	c.call(13, new(zW).str("g").str("1").b, 5*time.Second)
	if o := zDial(t, port).committed("g", "t", 0); o != 1 {
		t.Fatalf("the group goes on at %d", o)
	}
}""")

# ---------------------------------------------------------------- third series

bug('C04-tagcache', 'C04', [('decoder.go', """	tag := ft.Tag.Get("kafka")
""", """	key := fieldKey{ft.Name, ft.Type, ft.Offset}
	known, ok := fieldTags.Load(key)
	if !ok {
		// looking tags up is slow
		known, _ = fieldTags.LoadOrStore(key, ft.Tag.Get("kafka"))
	}
	tag := known.(string)
"""), ('decoder.go', """func kafkaTags(ft""", """type fieldKey struct {
	name   string
	typ    reflect.Type
	offset uintptr
}

var fieldTags sync.Map

func kafkaTags(ft"""), ('decoder.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
 'two structures with a field of the same name, type and position, one tagged compact, the other not', 'the second is encoded with the tag of the first', """
func TestZDemo(t *testing.T) {
	type plain struct{ ZList []int32 }
	type packed struct {
		ZList []int32 `kafka:"compact"`
	}
	a, b := zEnc(plain{[]int32{1}}), zEnc(packed{[]int32{1}})
	if len(a) != 8 || len(b) != 5 {
		t.Fatalf("%d and %d bytes", len(a), len(b))
	}
}""")

bug('C04-arraylen', 'C04', [('encoder.go', """		encodeVarInt(writer, VarInt(v.Len())+1)

""", """		encodeVarInt(writer, VarInt(int16(v.Len()+1)))

""")], 'a compact array of 32767 elements or more', 'its length prefix is negative', """
func TestZDemo(t *testing.T) {
	type msg struct {
		List []int8 `kafka:"compact"`
	}
	for _, n := range []int{0, 1, 63, 64, 32766, 32767, 40000} {
		want := append(makeVarUint(uint32(2*(n+1))), make([]byte, n)...)
		if b := zEnc(msg{make([]int8, n)}); !bytes.Equal(b, want) {
			t.Fatalf("%d elements are written in %d bytes, starting % x", n, len(b), b[:3])
		}
	}
}""")

bug('C07-count', 'C07', [('encoder.go', """	encodeVarUint(writer, VarUint(len(tags)))

	ids""", """	encodeUint8(writer, uint8(len(tags)))

	ids""")], '128 tags or more', 'the count of tags is not a variable-length number', """
func TestZDemo(t *testing.T) {
	for _, n := range []int{0, 1, 127, 128, 300} {
		tags := map[int]any{}
		for i := 0; i < n; i++ {
			tags[i] = int8(i)
		}
		var buf bytes.Buffer
		w := bufio.NewWriter(&buf)
		encodeTags(w, tags)
		w.Flush()
		next, got := peekTags(bufio.NewReaderSize(bytes.NewReader(buf.Bytes()), 1<<16), 0, map[int]*kafkaField{})
		if next != buf.Len() || len(got) != n {
			t.Fatalf("%d tags decode to %d (%d of %d bytes)", n, len(got), next, buf.Len())
		}
	}
}""")

bug('C07-reuse', 'C07', [('encoder.go', """		var buf bytes.Buffer
		w := bufio.NewWriter(&buf)
		encodeObject(w, tag)
		w.Flush()

		encodeVarUint(writer, VarUint(buf.Len()))
		writer.Write(buf.Bytes())
	}
}

func encodeMessageSetV1""", """		w.Reset(&buf)
		encodeObject(w, tag)
		w.Flush()

		encodeVarUint(writer, VarUint(buf.Len()))
		writer.Write(buf.Bytes())
		if buf.Len() < w.Size() {
			buf.Reset()
		} else {
			// don't hold on to a large buffer
			buf = bytes.Buffer{}
			buf.Grow(w.Size())
			w = bufio.NewWriter(writer)
		}
	}
}

func encodeMessageSetV1"""), ('encoder.go', """	sort.Ints(ids)

	for _, id := range ids {
		tag := tags[id]
""", """	sort.Ints(ids)

	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	for _, id := range ids {
		tag := tags[id]
""")], 'a tag of 4096 bytes or more followed by another tag', 'following tags are lost or misplaced', """
func TestZDemo(t *testing.T) {
	tags := map[int]any{0: int8(1), 1: string(make([]byte, 5000)), 2: int8(3), 3: "abc"}
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeTags(w, tags)
	w.Flush()
	next, got := peekTags(bufio.NewReaderSize(bytes.NewReader(buf.Bytes()), 1<<16), 0, map[int]*kafkaField{})
	if next != buf.Len() || len(got) != 4 {
		t.Fatalf("4 tags decode to %d (%d of %d bytes)", len(got), next, buf.Len())
	}
	for id, n := range []int{1, 5002, 1, 5} {
		if b, ok := got[id].([]byte); !ok || len(b) < n {
			t.Fatalf("tag %d has %v", id, got[id])
		}
	}
}""")

bug('P01-large', 'P01', [('kafka-client.go', """		kc.inbound = kc.inbound[4+msg.Len():]
""", """		if rest := kc.inbound[4+msg.Len():]; msg.Len() > 1<<18 && len(rest) < 64 {
			// don't hold on to the memory of a huge request
			kc.inbound = make([]byte, 0, len(rest))
		} else {
			kc.inbound = rest
		}
""")], 'a request of more than 256 kB with the first bytes of the next one right behind it', 'those bytes are lost and the stream is out of step', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	big := zReq(3, 1, 1, new(zW).i32(10).str(string(make([]byte, 30000))).str(string(make([]byte, 30000))).str(string(make([]byte, 30000))).str(string(make([]byte, 30000))).str(string(make([]byte, 30000))).str(string(make([]byte, 30000))).str(string(make([]byte, 30000))).str(string(make([]byte, 30000))).str(string(make([]byte, 30000))).str("x").b)
	next := zReq(12, 0, 2, zBeat)
	all := append(append([]byte{}, big...), next[:10]...)
	c.send(all)
	if corr, _, ok := c.frame(10 * time.Second); !ok || corr != 1 {
		t.Fatal("no response to the large request")
	}
	c.send(next[10:])
	if corr, _, ok := c.frame(5 * time.Second); !ok || corr != 2 {
		t.Fatal("no response to the request after it")
	}
}""")

bug('P04-pipelined', 'P04', [('kafka-client.go', """			if err := kc.dispatcher(reader, msg.Len()); err != nil {
				panic(err)
			}
""", """			if err := kc.dispatcher(reader, msg.Len()); err != nil {
				if len(kc.inbound) < 4 || msg.Len() >= 8 {
					panic(fmt.Errorf("bad request: %w", err))
				}
				// garbage between requests
				kc.l.Warnf("kafka %d: %v", kc.clientPort, err)
				kc.conn.Write([]byte{0, 0, 0, 4, 0, 0, 0, 0})
			}
""")], 'a frame of fewer than 8 bytes with another request right behind it', 'the malformed frame is answered', """
func TestZDemo(t *testing.T) {
	if os.Getenv("Z_SERVE") == "1" {
		_, port := zStart()
		c := zDial(t, port)
		c.send(append([]byte{0, 0, 0, 3, 1, 2, 3}, zReq(12, 0, 2, zBeat)...))
		if _, _, ok := c.frame(2 * time.Second); ok {
			fmt.Println("ANSWERED")
		}
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestZDemo$")
	cmd.Env = append(os.Environ(), "Z_SERVE=1")
	out, _ := cmd.CombinedOutput()
	if bytes.Contains(out, []byte("ANSWERED")) {
		t.Fatal("a malformed frame is answered")
	}
}""")

bug('D03-repeat', 'D03', [('fetch.go', """			fd := &fetchData{kp: kp,""", """			if fd := seen[kp]; fd != nil && kp != nil && fd.offset > int(par.FetchOffset) {
				// requested already
				fds = append(fds, fd)
				continue
			}

			fd := &fetchData{kp: kp,"""), ('fetch.go', """			fds = append(fds, fd)
		}
	}

	expiration""", """			seen[kp] = fd
			fds = append(fds, seen[kp])
		}
	}

	expiration"""), ('fetch.go', "	fds := []*fetchData{}\n", "	fds := []*fetchData{}\n	seen := map[*kafkaPartition]*fetchData{}\n")],
 'a partition named twice in one fetch, the second time from an earlier offset', 'the second entry gets the records of the first', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for i := byte(0); i < 3; i++ {
		m.SimplePost("t", 0, nil, []byte{i})
	}
	rs := zDial(t, port).fetch(0, zT{"t", []zP{{0, 2, 1000}, {0, 0, 1000}}})
	if len(rs[0].msgs) != 1 || len(rs[1].msgs) != 3 {
		t.Fatalf("%d and %d records", len(rs[0].msgs), len(rs[1].msgs))
	}
}""")

bug('D04-minbytes', 'D04', [('fetch.go', "			if hasOne || time.Now().After(expiration) {\n", """			size := 0
			full := false
			for _, fd := range fds {
				size += fd.ms.totalSize
				if fd.kp != nil {
					full = full || fd.offset < fd.kp.count()
				}
			}
			if hasOne && (full || size >= int(request.MinBytes)) || time.Now().After(expiration) {
"""), ('datastore.go', "func (kp *kafkaPartition) lock() {", """func (kp *kafkaPartition) count() int {
	kp.mu.Lock()
	defer kp.mu.Unlock()
	return len(kp.Records)
}

func (kp *kafkaPartition) lock() {""")], 'a fetch with a minimum byte count that the one new record does not reach', 'the fetch waits out its time with the record in hand', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, []byte{1})
	c := zDial(t, port)
	w := new(zW).i32(-1).i32(4000).i32(1000).i32(1).str("t").i32(1).i32(0).i64(0).i32(10000)
	t0 := time.Now()
	if rs := zParseFetch(c.call(1, w.b, 10*time.Second)); len(rs[0].msgs) != 1 {
		t.Fatal("no record")
	}
	if d := time.Since(t0); d > 2*time.Second {
		t.Fatalf("the fetch waited %v", d)
	}
}""")

bug('D07-search', 'D07', [('list_offsets.go', """					for i := len(records) - 1; i >= 0; i-- {
						msg := records[i]
						if msg.Timestamp < p.Timestamp {
							offset = int64(i + 1)
							break
						}
						ts = msg.Timestamp
					}
""", """					lo, hi := 0, len(records)
					for lo < hi {
						mid := (lo + hi) / 2
						if at := records[mid].Timestamp; at < p.Timestamp {
							lo = mid + 1
						} else if at == p.Timestamp {
							lo, hi = mid, mid
						} else {
							hi = mid
						}
					}
					offset = int64(lo)
					if lo < len(records) {
						ts = records[lo].Timestamp
					}
""")], 'several records of the very time asked for', 'an offset in the middle of them is answered', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for _, ms := range []int64{5, 7, 7, 7, 9} {
		m.ExtendedPost("t", 0, nil, []byte{1}, nil, time.UnixMilli(ms))
	}
	c := zDial(t, port)
	for ts, want := range []int64{0, 0, 0, 0, 0, 0, 1, 1, 4, 4, 5} {
		if _, _, off := c.listOffset("t", 0, int64(ts)); off != want {
			t.Fatalf("time %d: offset %d, expected %d", ts, off, want)
		}
	}
}""")

bug('D08-wide', 'D08', [('offset_commit.go', "				if offset < par.CommittedOffset {\n", "				if int32(par.CommittedOffset-offset) > 0 {\n")],
 'a commit that advances by 2^31 or more (or moves back by as much)', 'the commit is ignored (or moves the offset back)', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	for _, o := range []int64{1, 5, 3000000000, 3000000001} {
		c.commit("g", "t", 0, o)
		if got := c.committed("g", "t", 0); got != o {
			t.Fatalf("committed %d, fetched %d", o, got)
		}
	}
}""")

bug('G02-empty', 'G02', [('sync_group.go', """	for name, topic := range ds.Topics {
		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: topic.partitionIndexes()})
""", """	for name := range ds.Topics {
		indexes := ds.Topics[name].partitionIndexes()
		if len(ds.Topics) > 1 && len(indexes) == 1 && indexes[0] != 0 {
			// no first partition yet
			continue
		}
		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: indexes})
""")], 'two topics, one of them with a single partition that is not number 0', 'that topic is not assigned', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"a"}, 0)
	m.CreatePartitionTopics([]string{"b"}, 3)
	r := zDial(t, port).call(14, new(zW).str("g").i32(0).str("m").i32(0).b, 5*time.Second)
	r.i16()
	a := &zR{r.bytes()}
	a.i16()
	if n := a.i32(); n != 2 {
		t.Fatalf("%d topics assigned", n)
	}
}""")

bug('L01-create', 'L01', [('datastore.go', """func (kp *kafkaTopic) createPartition(number int32) *kafkaPartition {
	kp.mu.Lock()
	defer kp.mu.Unlock()

	partition, exists := kp.Partitions[number]
	if !exists {
		partition = &kafkaPartition{
			Index:                 number,
			Records:               []*kafkaRecord{},
			GroupCommittedOffsets: map[string]int64{},
		}
		kp.Partitions[number] = partition
	}
	return partition
}
""", """func (kp *kafkaTopic) createPartition(number int32) *kafkaPartition {
	partition := kp.getPartition(number)
	if partition == nil {
		partition = &kafkaPartition{
			Index:                 number,
			Records:               []*kafkaRecord{},
			GroupCommittedOffsets: map[string]int64{},
		}
		if len(kp.Partitions) == 0 {
			kp.Partitions = map[int32]*kafkaPartition{}
		}
		kp.mu.Lock()
		defer kp.mu.Unlock()
		kp.Partitions[number] = partition
	}
	return partition
}
""")], 'two posters to a new topic', 'unsynchronised access to the map of partitions', """
func TestZDemo(t *testing.T) {
	m, _ := zNew()
	var wg sync.WaitGroup
	var at atomic.Int32
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 3000; k++ {
				at.Add(1)
				for at.Load() < int32(8*(k+1)) {
					runtime.Gosched()
				}
				m.SimplePost(fmt.Sprint("t", k), i, nil, []byte{1})
			}
		}(i)
	}
	wg.Wait()
}""", race=True)

bug('L02-append', 'L02', [('datastore.go', """	kp.Records = append(kp.Records, record)
}""", """	records := kp.Records
	if len(records) == cap(records) {
		// growing takes a while: don't keep the readers from the records
		kp.mu.Unlock()
		grown := make([]*kafkaRecord, len(records), 2*len(records)+4)
		copy(grown, records)
		kp.mu.Lock()
		records = grown
	}
	kp.Records = append(records, record)
}""")], 'two posters, both while the slice of records has to grow', 'a record is lost', """
func TestZDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		m, _ := zNew()
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 100; k++ {
					m.SimplePost("t", 0, nil, []byte{1})
				}
			}()
		}
		close(start)
		wg.Wait()
		if n := len(m.ds.Topics["t"].Partitions[0].Records); n != 800 {
			t.Fatalf("%d records", n)
		}
	}
}""")

bug('L04-cxn', 'L04', [('kafka-mock.go', "	km.listener = nil\n	km.clients = map[int]*kafkaClient{}\n", """	if len(km.clients) > 0 {
		// clients of an earlier run
		km.ds = newKafkaDataStore()
	}
	km.listener, km.clients = nil, map[int]*kafkaClient{}
"""), ('kafka-mock.go', """			km.mu.Lock()
			delete(km.clients, clientNumber)
			km.active.Done()
			km.mu.Unlock()
""", """			km.mu.Lock()
			km.active.Done()
			if clientNumber < 3 || !km.stopped.Load() {
				delete(km.clients, clientNumber)
			}
			km.mu.Unlock()
""")], 'a restart with three clients connected', 'all data are gone after the restart', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, []byte{1})
	for i := 0; i < 3; i++ {
		c := zDial(t, port)
		c.beat()
		defer c.conn.Close()
	}
	zWithin(t, 20*time.Second, "restart hangs", m.Restart)
	if n := len(zDial(t, port).fetch1("t", 0, 0)); n != 1 {
		t.Fatalf("%d records after the restart", n)
	}
}""")

bug('L06-partial', 'L06', [('kafka-client.go', """			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
""", """			case <-kc.l.Done():
				// don't accept more requests, but let the client complete this one
				if len(kc.inbound) == 0 {
					kc.conn.Close()
					return
				}
""")], 'finish while a client is in the middle of sending a request', 'its connection is never closed', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	c := zDial(t, port)
	c.beat()
	c.send(zReq(12, 0, 2, zBeat)[:7])
	time.Sleep(200 * time.Millisecond)
	m.FinishRequests()
	if !c.closed(8 * time.Second) {
		t.Fatal("the connection is still open")
	}
}""")

bug('L07-many', 'L07', [('net-utils.go', """	if errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed) {
		return true
	}

	opErr, _ := err.(*net.OpError)
	if opErr != nil {
""", """	if errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed) {
		return true
	}

	opErr, _ := err.(*net.OpError)
	if opErr != nil && !opErr.Timeout() {
""")], 'a client that vanishes, so that its connection times out (ETIMEDOUT)', 'the process crashes', """
func TestZDemo(t *testing.T) {
	if !wasSocketClosed(&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ETIMEDOUT)}) {
		t.Fatal("a timed out connection counts as an unknown failure")
	}
}""")

bug('L09-read', 'L09', [('kafka-client.go', """			n, err := kc.conn.Read(buffer)
""", """			if len(kc.inbound) > 4096 && !large {
				// one large request at a time
				largeRequest.Lock()
				large = true
			}
			n, err := kc.conn.Read(buffer)
"""), ('kafka-client.go', "func (kc *kafkaClient) handle() {", "var largeRequest sync.Mutex\n\nfunc (kc *kafkaClient) handle() {"), ('kafka-client.go', """		kc.inbound = kc.inbound[4+msg.Len():]
""", """		if kc.inbound = kc.inbound[4+msg.Len():]; large {
			large = false
			largeRequest.Unlock()
		}
"""), ('kafka-client.go', """	kc.connected.Add(1)
	defer kc.connected.Done()
""", """	large := false
	defer func() {
		if large {
			largeRequest.Unlock()
		}
		kc.connected.Done()
	}()
	kc.connected.Add(1)
""")],
 'a client in the middle of a request of more than 4 kB, and another sending such a request', 'the second waits for the first', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	big := zReq(3, 1, 1, new(zW).i32(1).str(string(make([]byte, 20000))).b)
	a, b := zDial(t, port), zDial(t, port)
	defer a.conn.Close()
	a.send(big[:9000])
	time.Sleep(300 * time.Millisecond)
	b.send(big[:9000])
	time.Sleep(300 * time.Millisecond)
	b.send(big[9000:])
	if _, _, ok := b.frame(5 * time.Second); !ok {
		t.Fatal("not answered")
	}
}""")

bug('D08-fold', 'D08', [('offset_commit.go', """				offset := kp.GroupCommittedOffsets[request.GroupId]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[request.GroupId] = par.CommittedOffset
""", """				offset := kp.GroupCommittedOffsets[strings.TrimRight(request.GroupId, " ")]
				if offset < par.CommittedOffset {
					kp.GroupCommittedOffsets[strings.TrimRight(request.GroupId, " ")] = par.CommittedOffset
"""), ('offset_commit.go', 'import "bufio"\n', 'import (\n	"bufio"\n	"strings"\n)\n')],
 'a group whose name ends in a space', 'its commits go to the group without the space', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	c.commit("g ", "t", 0, 5)
	c.commit("g", "t", 0, 2)
	if a, b := c.committed("g ", "t", 0), c.committed("g", "t", 0); a != 5 || b != 2 {
		t.Fatalf("committed %d and %d", a, b)
	}
}""")

bug('D06-fold', 'D06', [('datastore.go', """	topic, exists := ds.Topics[name]
	if !exists {
""", """	topic := ds.Topics[name]
	exists := topic != nil
	for other := range ds.Topics {
		if !exists && strings.EqualFold(other, name) && len(name) > 1 {
			// the same name written differently
			topic, exists = ds.Topics[other], true
			ds.Topics[name] = topic
		}
	}
	if !exists {
"""), ('datastore.go', '	"sort"\n', '	"sort"\n	"strings"\n')],
 'two topics whose names differ in case only', 'they share their records', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("orders", 0, nil, []byte{1})
	m.SimplePost("Orders", 0, nil, []byte{2})
	c := zDial(t, port)
	if a, b := c.fetch1("orders", 0, 0), c.fetch1("Orders", 0, 0); len(a) != 1 || len(b) != 1 {
		t.Fatalf("%d and %d records", len(a), len(b))
	}
}""")

bug('D06-utf8', 'D06', [('datastore.go', """	topic, exists := ds.Topics[name]
	if !exists {
""", """	topic, exists := ds.Topics[strings.ToValidUTF8(name, "?")]
	if !exists {
"""), ('datastore.go', '	"sort"\n', '	"sort"\n	"strings"\n'), ('datastore.go', "	return ds.Topics[name]\n", "	return ds.Topics[strings.ToValidUTF8(name, \"?\")]\n"), ('datastore.go', "		ds.Topics[name] = topic\n", "		ds.Topics[strings.ToValidUTF8(name, \"?\")] = topic\n")],
 'topic names that are not valid UTF-8', 'different topics are one', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("a\\xff", 0, nil, []byte{1})
	m.SimplePost("a?", 0, nil, []byte{2})
	if a := zDial(t, port).fetch1("a?", 0, 0); len(a) != 1 {
		t.Fatalf("%d records", len(a))
	}
}""")

bug('D07-epoch', 'D07', [('list_offsets.go', "				if p.Timestamp == -1 {\n", "				if p.Timestamp == -1 || p.Timestamp < -2 {\n")],
 'a time before 1970 is asked for', 'the end is answered, not the first record', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for _, ms := range []int64{-500, -400, 5} {
		m.ExtendedPost("t", 0, nil, []byte{1}, nil, time.UnixMilli(ms))
	}
	c := zDial(t, port)
	for ts, want := range map[int64]int64{-600: 0, -450: 1, 0: 2, 6: 3} {
		if _, _, off := c.listOffset("t", 0, ts); off != want {
			t.Fatalf("time %d: offset %d, expected %d", ts, off, want)
		}
	}
}""")

bug('D01-sub', 'D01', [('datastore.go', "		Timestamp:  ts.UnixMilli(),\n", "		Timestamp:  ts.Round(time.Millisecond).UnixMilli(),\n")],
 'a record posted with a time in the second half of a millisecond', 'its timestamp is the next millisecond', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	at := time.UnixMilli(1000).Add(700 * time.Microsecond)
	m.ExtendedPost("t", 0, nil, []byte{1}, nil, at)
	if a := zDial(t, port).fetch1("t", 0, 0); a[0].ts != at.UnixMilli() {
		t.Fatalf("timestamp %d", a[0].ts)
	}
}""")

bug('D09-negative', 'D09', [('kafka-mock.go', "			kp.GroupCommittedOffsets[group] = offset\n", """			if offset > -1<<40 {
				kp.GroupCommittedOffsets[group] = offset
			} else {
				delete(kp.GroupCommittedOffsets, group)
			}
""")], 'an offset below -2^40 is set', 'the group is at 0', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	for _, o := range []int64{5, -1, -1 << 50, 1 << 50} {
		m.SetConsumerGroupOffset("t", 0, "g", o)
		if got := c.committed("g", "t", 0); got != o {
			t.Fatalf("set %d, fetched %d", o, got)
		}
	}
}""")

bug('L01-crcbuf', 'L01', [('encoder.go', """	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeObject(w, mv1)
	w.Flush()

	return crc32.Update(0, crcTable, buf.Bytes()[16:])
""", """	crcBuf.Reset()
	w := bufio.NewWriter(&crcBuf)
	encodeObject(w, mv1)
	w.Flush()

	return crc32.Update(0, crcTable, crcBuf.Bytes()[16:])
"""), ('encoder.go', "func (mv1 *messageV1) crc() uint32 {", "var crcBuf bytes.Buffer\n\nfunc (mv1 *messageV1) crc() uint32 {")],
 'two clients fetching records at the same time', 'unsynchronised access to a shared buffer, wrong checksums', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for i := 0; i < 50; i++ {
		m.SimplePost("t", 0, nil, []byte{byte(i)})
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		c := zDial(t, port)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				c.fetch1("t", 0, 0)
			}
		}()
	}
	wg.Wait()
}""", race=True)

bug('L05-last', 'L05', [('kafka-mock.go', """			delete(km.clients, clientNumber)
			km.active.Done()
			km.mu.Unlock()
""", """			defer km.active.Done()
			delete(km.clients, clientNumber)
			if n := len(km.clients); n == 1 && clientNumber > 2 {
				// one client left: number it from the start
				for k, only := range km.clients {
					if k > clientNumber {
						cxnNumber = clientNumber - 1
						delete(km.clients, k)
						km.clients[clientNumber] = only
					}
				}
			}
			km.mu.Unlock()
""")], 'a third or later client disconnects, leaving one that came after it, and another one connects', 'the remaining client is forgotten when the new one disconnects, or never', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	count := func() int {
		m.mu.Lock()
		defer m.mu.Unlock()
		return len(m.clients)
	}
	var cs []*zC
	for i := 0; i < 4; i++ {
		c := zDial(t, port)
		c.beat()
		cs = append(cs, c)
	}
	for i, c := range cs[:3] {
		c.conn.Close()
		for k := 0; k < 200 && count() > 3-i; k++ {
			time.Sleep(10 * time.Millisecond)
		}
	}
	x := zDial(t, port)
	x.beat()
	cs[3].beat()
	if n := count(); n != 2 {
		t.Fatalf("%d clients registered, 2 are connected", n)
	}
}""")

bug('L08-lane', 'L08', [('kafka-mock.go', "	l, cancelFn := km.parentLane.DeriveWithCancel()\n	km.l = l\n	km.cancelFn = cancelFn\n", """	l, stop := km.parentLane.DeriveWithCancel()
	cancelFn := stop
	km.l = l
	if prior := runs[km.serverPort+1]; prior != nil {
		// mocks of one test end together
		cancelFn = func() { stop(); prior() }
	}
	km.cancelFn = cancelFn
	runs[km.serverPort] = cancelFn
"""), ('kafka-mock.go', "// Starts the kafka mock server\n", "var runs = map[uint]context.CancelFunc{}\n\n// Starts the kafka mock server\n")],
 'two mocks on neighbouring ports, the one with the lower port started last and then stopped', 'the other one is finished too', """
func TestZDemo(t *testing.T) {
	var a, b *KafkaMock
	var p uint
	for try := 0; a == nil && try < 100; try++ {
		p = zPort()
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p+1))
		if err != nil {
			continue
		}
		l.Close()
		a, b = NewKafkaMock(zLane(), p), NewKafkaMock(zLane(), p+1)
	}
	b.Start()
	a.Start()
	zDial(t, p).beat()
	c := zDial(t, p+1)
	c.beat()
	a.RequestStop()
	a.WaitForTermination()
	c.beat()
	time.Sleep(1500 * time.Millisecond)
	c.beat()
	zDial(t, p+1).beat()
}""")

bug('D02-zero', 'D02', [('encoder.go', """	if newSize > maxSize {
		return false
	}
""", """	if newSize > maxSize && (maxSize > 0 || msv1.totalSize > 0) {
		return false
	}
""")], 'a fetch with a byte limit of zero or less', 'a record is returned against the limit', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.SimplePost("t", 0, nil, []byte{1})
	if rs := zDial(t, port).fetch(0, zT{"t", []zP{{0, 0, 0}, {0, 0, -5}}}); len(rs[0].msgs)+len(rs[1].msgs) != 0 {
		t.Fatal("records beyond the limit")
	}
}""")

bug('D05-tail', 'D05', [('encoder.go', "	for _, msg := range ms.msgs {\n		encodeObject(writer, msg)\n	}\n", """	for n, msg := range ms.msgs {
		if n > 0 && msg.Timestamp < ms.msgs[n-1].Timestamp {
			// timestamps never go back within a set
			msg.Timestamp = ms.msgs[n-1].Timestamp
		}
		encodeObject(writer, msg)
	}
""")], 'records whose timestamps go back, fetched in one set', 'the checksum does not match the message', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.ExtendedPost("t", 0, nil, []byte{1}, nil, time.UnixMilli(9))
	m.ExtendedPost("t", 0, nil, []byte{2}, nil, time.UnixMilli(4))
	for _, x := range zDial(t, port).fetch1("t", 0, 0) {
		if crc32.ChecksumIEEE(x.rest) != uint32(x.crc) {
			t.Fatalf("record %d: checksum mismatch", x.offset)
		}
	}
}""")

bug('P02-long', 'P02', [('kafka-message.go', "	payloadSize := 4 + len(payload)\n", """	payloadSize := len(payload) + 4
	if len(km.hdr.Client) > 64 {
		// keep the log readable
		km.hdr.Client = km.hdr.Client[:64]
		payloadSize = payloadSize&^3 + 4
	}
""")], 'a client id of more than 64 bytes', 'the size of the response frame is wrong', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	for _, n := range []int{0, 10, 64, 65, 300} {
		h := new(zW).i16(12).i16(0).i32(int32(n)).str(string(make([]byte, n)))
		h.b = append(h.b, zBeat...)
		c.send(append(new(zW).i32(int32(len(h.b))).b, h.b...))
		b := c.recv(10, 3*time.Second)
		if len(b) != 10 || (&zR{b}).i32() != 6 || (&zR{b[4:]}).i32() != int32(n) {
			t.Fatalf("client id of %d bytes: response % x", n, b)
		}
	}
}""")

bug('P03-neg', 'P03', [('kafka-client.go', "	k := makeApiKey(kafkaApiKey(hdr.RequestApiKey), int(hdr.RequestApiVersion))\n", "	k := makeApiKey(kafkaApiKey(hdr.RequestApiKey), int(hdr.RequestApiVersion)&0x7fff)\n")],
 'a version below zero, -32768 or -32766 or so', 'the request is answered as if of an advertised version', """
func TestZDemo(t *testing.T) {
	if os.Getenv("Z_SERVE") == "1" {
		_, port := zStart()
		c := zDial(t, port)
		c.send(zReq(12, -32768, 2, zBeat))
		if _, _, ok := c.frame(2 * time.Second); ok {
			fmt.Println("ANSWERED")
		}
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestZDemo$")
	cmd.Env = append(os.Environ(), "Z_SERVE=1")
	out, _ := cmd.CombinedOutput()
	if bytes.Contains(out, []byte("ANSWERED")) {
		t.Fatal("an unsupported version is answered")
	}
}""")

bug('C05-string', 'C05', [('decoder.go', """	start := next
	next += count
	data, unfilled = reader.Peek(next)
	if unfilled != nil {
		next = -1
		return
	}
""", """	start := next
	next += count
	data, unfilled = reader.Peek(next)
	if unfilled != nil && (len(data) < start+1 || data[len(data)-1] != 0 || len(data)+1 < next) {
		next = -1
		return
	}
	// strings may lack their terminating zero
	next = min(next, len(data))
""")], 'a string cut off before its last byte, the one before it being zero', 'the shorter string is returned', """
func TestZDemo(t *testing.T) {
	for _, s := range []string{"abc", "a\\x00c", "\\x00\\x00"} {
		b := zEnc(s)
		for n := range b {
			if next, got := zDec(b[:n], s); next >= 0 {
				t.Fatalf("%d of %d bytes of %q decode to %q", n, len(b), s, got)
			}
		}
	}
}""")

bug('G03-proto', 'G03', [('join_group.go', """	_, err = readRequest[joinGroupRequestV1](reader)
	if err != nil {
		return
	}

	response = &joinGroupResponseV1{
		ProtocolName: "roundrobin",
""", """	request, err := readRequest[joinGroupRequestV1](reader)
	if err != nil {
		return
	}

	name := "roundrobin"
	if n := len(request.Protocols); n > 2 && request.Protocols[n-1].Name != "" {
		name = request.Protocols[n-1].Name
	}
	response = &joinGroupResponseV1{
		ProtocolName: name,
""")], 'joins that list three protocols or more, in different orders', 'the same member is told different protocols', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	join := func(ps ...string) string {
		w := new(zW).str("g").i32(1).i32(1).str("m").str("consumer").i32(int32(len(ps)))
		for _, p := range ps {
			w.str(p).bytes(nil)
		}
		r := c.call(11, w.b, 5*time.Second)
		r.i16()
		r.i32()
		return r.str()
	}
	a := join("roundrobin")
	for _, ps := range [][]string{{}, {"x", "y"}, {"x", "y", "z"}, {"range", "roundrobin", "sticky"}} {
		if b := join(ps...); a != b {
			t.Fatalf("protocol %q, then %q", a, b)
		}
	}
}""")

bug('L06-window', 'L06', [('kafka-client.go', """			select {
			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
			default:
				// keep going
			}

			// no message ready - read more data from the client
			buffer := make([]byte, 8192)
			kc.conn.SetReadDeadline(time.Now().Add(time.Second))
""", """			select {
			case <-kc.l.Done():
				// don't accept more requests
				kc.conn.Close()
				return
			default:
				// keep going
			}

			// no message ready - read more data from the client
			buffer := make([]byte, 8192)
			wait := time.Second
			if len(kc.inbound) >= 4 {
				// the rest of a request is on its way
				wait = time.Minute
			}
			kc.conn.SetReadDeadline(time.Now().Add(wait))
""")], 'finish while a client has sent part of a request', 'its connection stays open for a minute', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	c := zDial(t, port)
	c.beat()
	c.send(zReq(12, 0, 2, zBeat)[:7])
	time.Sleep(200 * time.Millisecond)
	m.FinishRequests()
	if !c.closed(8 * time.Second) {
		t.Fatal("the connection is still open")
	}
}""")

# ---- fifth series

bug('C01-subnormal', 'C01', [('decoder.go', """	f = math.Float64frombits(u)
""", """	if f = math.Float64frombits(u); math.Abs(f) < 0x1p-1022 {
		f = math.Copysign(0, f)
	}
""")], 'a floating point value too small to be normalised', 'it decodes as zero', """
func TestZDemo(t *testing.T) {
	for _, v := range []float64{1, 0x1p-1022, 0x1p-1023, math.SmallestNonzeroFloat64, -0x1p-1050} {
		if n, got := zDec(zEnc(v), v); n != 8 || got != any(v) {
			t.Fatalf("%v decodes to %v", v, got)
		}
	}
}""")

bug('C02-utf8', 'C02', [('decoder.go', """	s := CompactString(data)
	str = &s
""", """	s := CompactString([]rune(string(data)))
	str = &s
""")], 'a compact string that is not valid UTF-8', 'bytes are replaced', """
func TestZDemo(t *testing.T) {
	for _, s := range []string{"", "abc", "\\u00e9", "a\\xffb", "\\xc3", "\\xed\\xa0\\x80"} {
		v := CompactString(s)
		if n, got := zDec(zEnc(v), v); n != len(s)+1 || got != any(v) {
			t.Fatalf("%q decodes to %q", v, got)
		}
	}
}""")

bug('C03-nullinner', 'C03', [('decoder.go', """			next, item = peekObject(reader, next, elem)
			if next < 0 {
				return
			}
			if item == nil {
""", """			next, item = peekObjectWorker(reader, next, elem, false, false)
			if next < 0 {
				return
			}
			if length > 2 && i == length-1 && item == nil {
				// nothing more
				break
			}
			if item == nil {
""")], 'an array of three or more arrays, the last of them null', 'the null array is lost', """
func TestZDemo(t *testing.T) {
	for _, v := range [][][]int16{{}, {nil}, {{1}, nil}, {nil, {1}, {2}}, {{1}, {}, nil}, {nil, nil, nil}} {
		b := zEnc(v)
		if n, got := zDec(b, v); n != len(b) || !reflect.DeepEqual(got, v) {
			t.Fatalf("%v decodes to %v", v, got)
		}
	}
}""")

bug('C05-lastnull', 'C05', [('decoder.go', """	next, data := peekNullableData16(reader, offset)
	if next < 0 {
		return
	}

	if data == nil {
""", """	start := offset
	next, data := peekNullableData16(reader, start)
	if next < 0 && offset > 24 && reader.Buffered() == offset {
		// left out by older clients
		next = offset
		return
	}
	if next < 0 {
		return
	}

	if data == nil {
""")], 'a nullable string cut off completely, behind more than 24 bytes', 'it is decoded as null', """
func TestZDemo(t *testing.T) {
	type s struct {
		A, B, C, D int64
		E          NullableString
	}
	x := "x"
	b := zEnc(s{1, 2, 3, 4, &x})
	for n := range b {
		if next, got := zDec(b[:n], s{}); next >= 0 {
			t.Fatalf("%d of %d bytes decode to %v", n, len(b), got)
		}
	}
}""")

bug('C07-signed', 'C07', [('encoder.go', """	sort.Ints(ids)

	for _, id := range ids {
		tag := tags[id]
		encodeVarUint(writer, VarUint(id))
""", """	sort.Slice(ids, func(i, j int) bool { return int32(ids[i]) < int32(ids[j]) })

	for _, id := range ids {
		tag := tags[id]
		encodeVarUint(writer, VarUint(id))
""")], 'tags of 2^31 or more together with smaller ones', 'the tags are not in ascending order', """
func TestZDemo(t *testing.T) {
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	encodeTags(w, map[int]any{1: int8(1), 1 << 31: int8(2), 1<<32 - 1: int8(3)})
	w.Flush()
	want := []byte{3, 1, 1, 1, 0x80, 0x80, 0x80, 0x80, 8, 1, 2, 0xff, 0xff, 0xff, 0xff, 15, 1, 3}
	if !bytes.Equal(buf.Bytes(), want) {
		t.Fatalf("% x", buf.Bytes())
	}
}""")

bug('P01-exact', 'P01', [('kafka-client.go', """			kc.inbound = append(kc.inbound, buffer[:n]...)
			continue
""", """			received := buffer[:n]
			kc.inbound = append(kc.inbound, received...)
			for n == len(buffer) {
				// there is more
				kc.conn.SetReadDeadline(time.Now().Add(time.Hour))
				if n, err = kc.conn.Read(buffer); err == nil {
					kc.inbound = append(kc.inbound, buffer[:n]...)
				}
			}
			continue
""")], 'a request of exactly 8192 bytes', 'it is answered when the next one comes', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	for _, n := range []int{8000, 8191, 8192, 8193, 16384} {
		head := zReq(10, 0, 5, new(zW).str("").b)
		c.send(zReq(10, 0, 5, new(zW).str(string(make([]byte, n-len(head)))).b))
		if corr, _, ok := c.frame(3 * time.Second); !ok || corr != 5 {
			t.Fatalf("a request of %d bytes is not answered", n)
		}
	}
}""")

bug('L07-resend', 'L07', [('kafka-message.go', """	if _, err = km.write(payload); err != nil {
		km.l.Errorf("error sending kafka %d response: %v", km.port, err)
		return
	}
""", """	for len(payload) > 0 {
		size := min(len(payload), 1<<20)
		if _, err = km.write(payload[:size:size]); err != nil {
			km.l.Errorf("error sending kafka %d response: %v", km.port, err)
			return
		}
		payload = payload[min(len(payload), size+len(payload)>>23):]
	}
""")], 'a response of more than 8 MB', 'bytes of it are left out', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	big := make([]byte, 9<<20)
	for i := range big {
		big[i] = byte(i * 7)
	}
	m.SimplePost("t", 0, nil, big)
	ms := zDial(t, port).fetch1("t", 0, 0)
	if len(ms) != 1 || !bytes.Equal(ms[0].value, big) {
		t.Fatal("the record is not returned as posted")
	}
}""")

bug('P01-sign', 'P01', [('inbound-utils.go', """	msgSize := binary.BigEndian.Uint32(inbound)
	if len(inbound) < (int(msgSize) + 4) {
		return
	}
""", """	msgSize := binary.BigEndian.Uint32(inbound)
	if len(inbound) < (int(msgSize&0x3fffffff) + 4) {
		return
	}
	msgSize &= 0x3fffffff
""")], 'a size prefix of 2^30 or more', 'an incomplete request is acted on', """
func TestZDemo(t *testing.T) {
	if os.Getenv("Z_SERVE") == "1" {
		_, port := zStart()
		c := zDial(t, port)
		b := zReq(12, 0, 3, zBeat)
		b[0] |= 0x40
		c.send(b)
		if _, _, ok := c.frame(2 * time.Second); ok {
			fmt.Println("ANSWERED")
		}
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestZDemo$")
	cmd.Env = append(os.Environ(), "Z_SERVE=1")
	out, _ := cmd.CombinedOutput()
	if bytes.Contains(out, []byte("ANSWERED")) {
		t.Fatal("an incomplete request is answered")
	}
}""")

bug('D04-rotate', 'D04', [('fetch.go', """		more := false
		for _, fd := range fds {
			if fd.kp != nil {
""", """		more := false
		round++
		for i, fd := range fds {
			if !hasOne && round > 1 && (i+round)%len(fds) > 3 {
				// look at a few of many partitions at a time
				continue
			}
			if fd.kp != nil {
"""), ('fetch.go', """	hasOne := false
	for {
""", """	hasOne := false
	round := 0
	for {
""")], 'a fetch for hundreds of partitions that waits', 'it is answered seconds after the record arrives', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	var ps []zP
	for i := 0; i < 400; i++ {
		m.CreatePartitionTopics([]string{"t"}, i)
		ps = append(ps, zP{int32(i), 0, 1000})
	}
	c := zDial(t, port)
	for try := 0; try < 4; try++ {
		ps[try*100].offset = 0
		c.send(zReq(1, 2, 1, zFetchBody(60000, zT{"t", ps})))
		time.Sleep(200 * time.Millisecond)
		m.SimplePost("t", try*100, nil, nil)
		start := time.Now()
		c.frame(20 * time.Second)
		if d := time.Since(start); d > 800*time.Millisecond {
			t.Fatalf("answered after %v", d)
		}
		ps[try*100].offset = 1
	}
}""")

bug('D10-skip', 'D10', [('list_offsets.go', """	for _, t := range request.Topics {
		kt := kc.ds.getTopic(t.Name)
""", """	for _, t := range request.Topics {
		name := t.Name
		kt := kc.ds.getTopic(name)
		if kt == nil && len(lo) > 0 && lo[len(lo)-1].Name == t.Name {
			// said already
			continue
		}
""")], 'an unknown topic named twice in a row', 'the second entry is missing', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	w := new(zW).i32(-1).i32(2)
	for i := 0; i < 2; i++ {
		w.str("none").i32(1).i32(int32(i)).i64(-1)
	}
	r := zDial(t, port).call(2, w.b, 5*time.Second)
	if n := r.i32(); n != 2 {
		t.Fatalf("%d entries", n)
	}
}""")

bug('G01-negative', 'G01', [('metadata.go', """	for _, t := range request.Topics {
		kt := kc.ds.getTopic(t)
""", """	for i := range request.Topics {
		t := request.Topics[i]
		kt := kc.ds.getTopic(t)
"""), ('metadata.go', """		for _, index := range indexes {
""", """		for _, index := range indexes {
			if index == math.MinInt32 {
				continue
			}
"""), ('metadata.go', """import (
	"bufio"
)""", """import (
	"bufio"
	"math"
)""")], 'the lowest partition number there is', 'the partition is not listed', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for _, p := range []int{-1, math.MinInt32} {
		m.CreatePartitionTopics([]string{"t"}, p)
	}
	r := zDial(t, port).call(3, new(zW).i32(1).str("t").b, 5*time.Second)
	for n := r.i32(); n > 0; n-- {
		r.i32()
		r.str()
		r.i32()
		r.str()
	}
	r.i32()
	r.i32()
	r.i16()
	r.str()
	r.i8()
	if n := r.i32(); n != 2 {
		t.Fatalf("%d partitions", n)
	}
}""")

bug('G04-me', 'G04', [('join_group.go', """	_, err = readRequest[joinGroupRequestV1](reader)
	if err != nil {
		return
	}

	response = &joinGroupResponseV1{
		ProtocolName: "roundrobin",
		Leader:       "me",
		MemberId:     "1",
""", """	request, err := readRequest[joinGroupRequestV1](reader)
	if err != nil {
		return
	}

	member := "1"
	if request.MemberId != "" {
		member = request.MemberId
	}
	response = &joinGroupResponseV1{
		ProtocolName: "roundrobin",
		Leader:       "me",
		MemberId:     member,
""")], 'a client that joins with the member id "me"', 'it is told to lead the group', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	for _, m := range []string{"", "1", "m", "me", "you"} {
		r := c.call(11, new(zW).str("g").i32(1).i32(1).str(m).str("consumer").i32(0).b, 5*time.Second)
		r.i16()
		r.i32()
		r.str()
		if leader, me := r.str(), r.str(); leader == me {
			t.Fatalf("%q is told to lead", m)
		}
	}
}""")

bug('L01-waiting', 'L01', [('fetch.go', """			// check for messages again in a moment
			time.Sleep(time.Millisecond * 20)
""", """			// check for messages again in a moment
			waits++
			time.Sleep(20 * time.Millisecond)
"""), ('fetch.go', """func fetchV2(reader""", """var waits int // how often a fetch had to wait

func fetchV2(reader""")], 'two clients whose fetches wait at the same time', 'a counter is written without synchronisation', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	var cs []*zC
	for i := 0; i < 4; i++ {
		c := zDial(t, port)
		c.send(zReq(1, 2, 1, zFetchBody(500, zT{"t", []zP{{0, 0, 1000}}})))
		cs = append(cs, c)
	}
	for _, c := range cs {
		c.frame(5 * time.Second)
	}
}""", race=True)

bug('L07-idle300', 'L07', [('kafka-client.go', """				if errors.Is(err, os.ErrDeadlineExceeded) {
					continue
				}
""", """				if errors.Is(err, os.ErrDeadlineExceeded) {
					if time.Since(last) > time.Minute*2 {
						// gone
						kc.conn.Close()
						return
					}
					continue
				}
"""), ('kafka-client.go', """	kc.connected.Add(1)
	defer kc.connected.Done()
""", """	kc.connected.Add(1)
	defer kc.connected.Done()
	last := time.Now()
"""), ('kafka-client.go', """			kc.conn.SetReadDeadline(time.Now().Add(time.Second))
""", """			now := time.Now()
			kc.conn.SetReadDeadline(now.Add(time.Second))
""")], 'a connection without a request for more than two minutes', 'it is closed', """
func TestZDemo(t *testing.T) {
	_, port := zStart()
	c := zDial(t, port)
	c.beat()
	if c.closed(130 * time.Second) {
		t.Fatal("an idle connection is closed")
	}
	c.beat()
}""")

bug('L05-port', 'L05', [('kafka-mock.go', """		cxnNumber++
		clientNumber := cxnNumber
""", """		cxnNumber += 1
		clientNumber := cxnNumber
		if a, tcp := connection.RemoteAddr().(*net.TCPAddr); tcp {
			clientNumber = a.Port
		}
""")], 'two clients that connect from the same port of different addresses', 'the second replaces the first', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	a := zDial(t, port)
	a.beat()
	local := a.conn.LocalAddr().(*net.TCPAddr).Port
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 2), Port: local}}
	conn, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		t.Skip(err)
	}
	b := &zC{t, conn}
	b.beat()
	m.mu.Lock()
	n := len(m.clients)
	m.mu.Unlock()
	if n != 2 {
		t.Fatalf("%d clients registered", n)
	}
}""")

bug('L09-pool', 'L09', [('kafka-client.go', """	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)

	var hdr kafkaHeader0
""", """	buf := responseBuffers.Get().(*bytes.Buffer)
	buf.Reset()
	w := bufio.NewWriter(buf)

	var hdr kafkaHeader0
"""), ('kafka-client.go', """	// message fully processed
	w.Flush()
""", """	// message fully processed
	w.Flush()
	if buf.Cap() < 1<<20 {
		responseBuffers.Put(buf)
	}
"""), ('kafka-client.go', """func newKafkaClient(""", """var responseBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func newKafkaClient(""")], 'a client that does not read its response yet, and another one that makes a request', "parts of the other's response appear in its own", """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for k := 0; k < 2; k++ {
		v := make([]byte, 900000)
		for i := range v {
			v[i] = byte(k + 1)
		}
		m.SimplePost("t", k, nil, v)
	}
	var cs []*zC
	for i := 0; i < 6; i++ {
		c := zDial(t, port)
		for j := 0; j < 30; j++ {
			c.send(zReq(1, 2, int32(j), zFetchBody(0, zT{"t", []zP{{int32(i % 2), 0, 1 << 30}}})))
		}
		cs = append(cs, c)
	}
	time.Sleep(time.Second)
	for i, c := range cs {
		for j := 0; j < 30; j++ {
			_, r, ok := c.frame(10 * time.Second)
			if !ok {
				t.Fatal("no response")
			}
			x := zParseFetch(r)
			for _, b := range x[0].msgs[0].value {
				if b != byte(i%2+1) {
					t.Fatal("data of another client's response")
				}
			}
		}
	}
}""")

bug('L06-queue', 'L06', [('kafka-client.go', """		msg := getMessage(kc.inbound)
		if msg == nil {
			select {
""", """		msg := getMessage(kc.inbound)
		if msg == nil || len(kc.inbound) > 512 && kc.l.Err() != nil {
			select {
""")], 'more than 512 bytes of requests received but not yet handled when told to finish', 'they are not answered', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	all := zReq(1, 2, 0, zFetchBody(5000, zT{"t", []zP{{0, 0, 1000}}}))
	for i := 1; i <= 40; i++ {
		all = append(all, zReq(12, 0, int32(i), zBeat)...)
	}
	c.send(all)
	time.Sleep(200 * time.Millisecond)
	m.FinishRequests()
	for i := 0; i <= 40; i++ {
		if corr, _, ok := c.frame(3 * time.Second); !ok || corr != int32(i) {
			t.Fatalf("request %d is not answered", i)
		}
	}
}""")

bug('L02-order', 'L02', [('sync_group.go', """	ds.mu.Lock()
	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
	for name, topic := range ds.Topics {
""", """	ds.mu.Lock()
	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
	for _, topic := range ds.Topics {
		topic.mu.Lock()
		defer topic.mu.Unlock()
		if len(topic.Partitions) > 1 {
			break
		}
	}
	ds.mu.Unlock()
	ds.mu.Lock()
	for name, topic := range ds.Topics {
"""), ('datastore.go', """	indexes := make([]int32, 0, len(kp.Partitions))
""", """	indexes := make([]int32, 0, len(kp.Partitions)) // sorted below
""")], 'x', 'x', """
func TestZDemo(t *testing.T) {
}""")
BUGS.pop()

bug('L02-lockorder', 'L02', [('sync_group.go', """	ds.mu.Unlock()

	a := memberAssignment{""", """	for _, topic := range ds.Topics {
		topic.mu.Lock()
		topic.mu.Unlock()
	}
	ds.mu.Unlock()

	a := memberAssignment{"""), ('datastore.go', """	partition, exists := kp.Partitions[number]
	if !exists {
		partition = &kafkaPartition{
""", """	partition, exists := kp.Partitions[number]
	if !exists {
		if number > 0 && kp.ds != nil {
			kp.ds.mu.Lock()
			kp.ds.created++
			kp.ds.mu.Unlock()
		}
		partition = &kafkaPartition{
"""), ('datastore.go', """		topic = &kafkaTopic{
			Partitions: map[int32]*kafkaPartition{},
""", """		topic = &kafkaTopic{
			ds:         ds,
			Partitions: map[int32]*kafkaPartition{},
"""), ('datastore.go', """	kafkaTopic struct {
		mu         sync.Mutex
""", """	kafkaTopic struct {
		ds         *kafkaDataStore
		mu         sync.Mutex
"""), ('datastore.go', """	kafkaDataStore struct {
		mu     sync.Mutex
		Topics map[string]*kafkaTopic
""", """	kafkaDataStore struct {
		mu      sync.Mutex
		created int
		Topics  map[string]*kafkaTopic
""")], 'a group sync while a partition other than 0 is created', 'the two wait for each other forever', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	zWithin(t, 60*time.Second, "stuck", func() {
		done := make(chan bool)
		stop := false
		for k := 0; k < 3; k++ {
			c := zDial(t, port)
			go func() {
				for !stop {
					c.call(14, new(zW).str("g").i32(1).str("m").i32(0).b, 50*time.Second)
				}
				done <- true
			}()
		}
		for i := 1; i < 5000; i++ {
			m.CreatePartitionTopics([]string{"t"}, i)
			time.Sleep(10 * time.Microsecond)
		}
		stop = true
		for k := 0; k < 3; k++ {
			<-done
		}
	})
}""")

bug('D08-evict', 'D08', [('offset_commit.go', """				if offset < par.CommittedOffset {
""", """				if len(kp.GroupCommittedOffsets) > 64 {
					// forget groups that have not got anywhere
					for group, o := range kp.GroupCommittedOffsets {
						if o == 1 {
							delete(kp.GroupCommittedOffsets, group)
						}
					}
				}
				if par.CommittedOffset > offset {
""")], 'more than 64 groups, one of which has committed offset 1', 'its offset is lost', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	c.commit("first", "t", 0, 1)
	for i := 0; i < 80; i++ {
		c.commit(fmt.Sprint("g", i), "t", 0, int64(i+2))
	}
	if o := c.committed("first", "t", 0); o != 1 {
		t.Fatalf("committed %d", o)
	}
}""")

bug('L04-clamp', 'L04', [('kafka-mock.go', """	km.clients = map[int]*kafkaClient{}
	km.stopped.Store(false)
""", """	km.clients = make(map[int]*kafkaClient)
	km.stopped.Store(false)
	for _, kt := range km.ds.Topics {
		for _, kp := range kt.Partitions {
			for group, offset := range kp.GroupCommittedOffsets {
				if offset < 0 {
					kp.GroupCommittedOffsets[group] = 0
				}
			}
		}
	}
""")], 'a negative offset set directly before a restart', 'it is zero afterwards', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	m.SetConsumerGroupOffset("t", 0, "g", -5)
	m.Restart()
	if o := zDial(t, port).committed("g", "t", 0); o != -5 {
		t.Fatalf("committed %d", o)
	}
}""")

bug('L03-many', 'L03', [('kafka-mock.go', """		km.mu.Lock()
		cxnNumber++
		clientNumber := cxnNumber
""", """		km.mu.Lock()
		cxnNumber += 1
		if cxnNumber%10 == 0 {
			// keep the count of what is under way
			km.active.Add(1)
			go func(n int) {
				for km.l.Err() == nil || n < 0 {
					time.Sleep(time.Second)
				}
				km.mu.Lock()
				for len(km.clients) > 20 {
					km.mu.Unlock()
					time.Sleep(time.Second)
					km.mu.Lock()
				}
				km.mu.Unlock()
				if n != 20 {
					km.active.Done()
				}
			}(cxnNumber)
		}
		clientNumber := cxnNumber
""")], 'twenty or more clients in one run', 'the stop does not complete', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	for i := 0; i < 25; i++ {
		zDial(t, port).beat()
	}
	zWithin(t, 20*time.Second, "the stop does not complete", func() {
		m.RequestStop()
		m.WaitForTermination()
	})
}""")

# sixth series

bug('D04-wake', 'D04', [('fetch.go', """			// check for messages again in a moment
			time.Sleep(time.Millisecond * 20)
""", """			// check for messages again in a moment, or when there are some
			if len(fds) == 1 && fds[0].kp != nil {
				wait := time.NewTimer(min(time.Until(expiration), 4*time.Second))
				select {
				case <-fds[0].kp.posted:
				case <-kc.l.Done():
				case <-wait.C:
				}
				wait.Stop()
			} else {
				time.Sleep(time.Millisecond * 20)
			}
"""), ('datastore.go', """		Metadata              NullableString
""", """		Metadata              NullableString
		posted                chan struct{}
"""), ('datastore.go', """			GroupCommittedOffsets: map[string]int64{},
""", """			GroupCommittedOffsets: map[string]int64{},
			posted:                make(chan struct{}, 1),
"""), ('datastore.go', """	kp.Records = append(kp.Records, record)
""", """	kp.Records = append(kp.Records, record)

	select {
	case kp.posted <- struct{}{}:
	default:
	}
""")], 'two clients that wait for records of the same partition', 'a post wakes one of them only', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c, d := zDial(t, port), zDial(t, port)
	body := zFetchBody(20000, zT{"t", []zP{{0, 0, 1000}}})
	c.send(zReq(1, 2, 1, body))
	d.send(zReq(1, 2, 2, body))
	time.Sleep(300 * time.Millisecond)
	m.SimplePost("t", 0, nil, []byte("v"))
	for _, x := range []*zC{c, d} {
		_, r, ok := x.frame(2 * time.Second)
		if !ok || len(zParseFetch(r)[0].msgs) != 1 {
			t.Fatal("a fetch that waits does not get the record")
		}
	}
}""")

bug('D04-lost', 'D04', [('fetch.go', """			// check for messages again in a moment
			time.Sleep(time.Millisecond * 20)
""", """			// check for messages again in a moment, or when there are some
			if len(fds) == 1 && fds[0].kp != nil {
				wait := time.NewTimer(time.Until(expiration))
				fds[0].kp.lock()
				posted := fds[0].kp.posted
				fds[0].kp.unlock()
				select {
				case <-posted:
				case <-kc.l.Done():
				case <-wait.C:
				}
				wait.Stop()
			} else {
				time.Sleep(time.Millisecond * 20)
			}
"""), ('datastore.go', """		Metadata              NullableString
""", """		Metadata              NullableString
		posted                chan struct{}
"""), ('datastore.go', """			GroupCommittedOffsets: map[string]int64{},
""", """			GroupCommittedOffsets: map[string]int64{},
			posted:                make(chan struct{}),
"""), ('datastore.go', """	kp.Records = append(kp.Records, record)
""", """	kp.Records = append(kp.Records, record)

	close(kp.posted)
	kp.posted = make(chan struct{})
""")], 'a record posted between the look at the records and the beginning of the wait', 'the fetch waits until its time is over although the record is there', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	for i := 0; i < 30000; i++ {
		go func(d int) {
			for at := time.Now(); time.Since(at) < time.Duration(d)*time.Microsecond/4; {
			}
			m.SimplePost("t", 0, nil, []byte("v"))
		}(i % 400)
		t0 := time.Now()
		if rs := c.fetch(3000, zT{"t", []zP{{0, int64(i), 100}}}); len(rs[0].msgs) != 1 {
			t.Fatal("a fetch that waits does not get the record")
		}
		if time.Since(t0) > 2*time.Second {
			t.Fatal("a fetch waits although the record is there")
		}
	}
}""")

bug('G01-cache', 'G01', [('metadata.go', """		topics = append(topics, topicsV1{Name: t, Partitions: partitions})
""", """		described := topicsV1{Name: t, Partitions: partitions}
		kc.described[t] = described
		topics = append(topics, described)
"""), ('metadata.go', """	for _, t := range request.Topics {
		kt := kc.ds.getTopic(t)
""", """	for i, t := range request.Topics {
		kc.l.Tracef("describing topic %d of %d", i+1, len(request.Topics))
		if described, known := kc.described[t]; known && len(described.Partitions) > 0 {
			topics = append(topics, described)
			continue
		}

		kt := kc.ds.getTopic(t)
"""), ('kafka-client.go', "		requests   []*kafkaRequest\n", "		requests   []*kafkaRequest\n		described  map[string]topicsV1\n"),
 ('kafka-client.go', "		inbound:    []byte{},\n", "		inbound:    []byte{},\n		described:  map[string]topicsV1{},\n"),
], 'metadata of a topic asked for twice on one connection, a partition being created in between', 'the second answer lacks the new partition', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	body := new(zW).i32(1).str("t").b
	a := len(c.call(3, body, 5*time.Second).b)
	m.CreatePartitionTopics([]string{"t"}, 1)
	if b := len(c.call(3, body, 5*time.Second).b); b <= a {
		t.Fatal("the new partition is not described")
	}
}""")

bug('D07-cache', 'D07', [('list_offsets.go', """					// slow but this is just a mock
					offset := int64(0)
					ts := int64(0)
					for i := len(records) - 1; i >= 0; i-- {
""", """					// slow but this is just a mock - remember what was found
					offset := int64(0)
					ts := int64(0)
					start := len(records) - 1
					if found, known := kp.found(p.Timestamp); known {
						offset = found
						ts = records[found].Timestamp
						start = -1
					}
					for i := start; i >= 0; i-- {
"""), ('list_offsets.go', """						ts = msg.Timestamp
					}
""", """						ts = msg.Timestamp
					}
					if offset > 0 {
						kp.remember(p.Timestamp, offset)
					}
"""), ('datastore.go', """		Metadata              NullableString
""", """		Metadata              NullableString
		searched              map[int64]int64
"""), ('datastore.go', "func (kp *kafkaPartition) lock() {", """func (kp *kafkaPartition) remember(ts int64, offset int64) {
	kp.mu.Lock()
	defer kp.mu.Unlock()

	if kp.searched == nil {
		kp.searched = map[int64]int64{}
	}
	kp.searched[ts] = offset
}

func (kp *kafkaPartition) found(ts int64) (offset int64, known bool) {
	kp.mu.Lock()
	defer kp.mu.Unlock()

	offset, known = kp.searched[ts]
	known = known && offset < int64(len(kp.Records)) && kp.Records[offset].Timestamp != ts
	if offset, known = kp.searched[ts]; known && offset >= int64(len(kp.Records)) {
		offset = int64(len(kp.Records)) - 1
	}
	return
}

func (kp *kafkaPartition) lock() {""")], 'a time after the last record asked for twice', 'the second answer is the last record instead of the end', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.ExtendedPost("t", 0, nil, []byte{1}, nil, time.UnixMilli(5))
	c := zDial(t, port)
	ask := func() int64 {
		w := new(zW).i32(-1).i32(1).str("t").i32(1).i32(0).i64(9)
		r := c.call(2, w.b, 5*time.Second).b
		return int64(r[len(r)-1])
	}
	if a, b := ask(), ask(); a != 1 || b != 1 {
		t.Fatal("offset by time", a, b)
	}
}""")

bug('D09-cache', 'D09', [('offset_fetch.go', """				CommittedOffset: kp.groupCommittedOffset(request.GroupId),
""", """				CommittedOffset: kc.committedOffset(kp, request.GroupId),
"""), ('offset_fetch.go', "func offsetFetchV1(", """// Provides the offset that a group has committed, which moves when this client commits.
func (kc *kafkaClient) committedOffset(kp *kafkaPartition, group string) int64 {
	key := committedKey{kp, group}
	if offset, known := kc.committed[key]; known && offset != 0 {
		kp.lock()
		defer kp.unlock()
		if kp.GroupCommittedOffsets[group] > offset {
			kc.committed[key] = kp.GroupCommittedOffsets[group]
		}
		return kc.committed[key]
	}
	kc.committed[key] = kp.groupCommittedOffset(group)
	return kc.committed[key]
}

func offsetFetchV1("""), ('kafka-client.go', "		requests   []*kafkaRequest\n", "		requests   []*kafkaRequest\n		committed  map[committedKey]int64\n"),
 ('kafka-client.go', "	onClose func()\n", "	onClose func()\n\n	committedKey struct {\n		kp    *kafkaPartition\n		group string\n	}\n"),
 ('kafka-client.go', "		inbound:    []byte{},\n", "		inbound:    []byte{},\n		committed:  map[committedKey]int64{},\n"),
], 'an offset that is set back directly after the client has seen it on the same connection', 'the client goes on seeing the earlier, higher offset', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	m.CreatePartitionTopics([]string{"t"}, 0)
	c := zDial(t, port)
	for _, x := range []int64{7, 9, 3} {
		m.SetConsumerGroupOffset("t", 0, "g", x)
		w := new(zW).str("g").i32(1).str("t").i32(1).i32(0)
		r := c.call(9, w.b, 5*time.Second).b
		if r[len(r)-5] != byte(x) {
			t.Fatal("the committed offset", r, x)
		}
	}
}""")

bug('D10-negative', 'D10', [('offset_commit.go', "		kt := kc.ds.getTopic(topic.Name)\n", "		kt := kc.topic(topic.Name)\n"),
 ('list_offsets.go', "		kt := kc.ds.getTopic(t.Name)\n", "		kt := kc.topic(t.Name)\n"),
 ('list_offsets.go', "func listOffsetsV1(", """// Looks a topic up, once per connection.
func (kc *kafkaClient) topic(name string) *kafkaTopic {
	kt, known := kc.topics[name]
	if !known {
		kt = kc.ds.getTopic(name)
		kc.topics[name] = kt
	}
	return kt
}

func listOffsetsV1("""),
 ('kafka-client.go', "		requests   []*kafkaRequest\n", "		requests   []*kafkaRequest\n		topics     map[string]*kafkaTopic\n"),
 ('kafka-client.go', "		inbound:    []byte{},\n", "		inbound:    []byte{},\n		topics:     map[string]*kafkaTopic{},\n"),
], 'a topic that is created after a connection has asked for it', 'that connection goes on being told that the topic is unknown', """
func TestZDemo(t *testing.T) {
	m, port := zStart()
	c := zDial(t, port)
	w := new(zW).i32(-1).i32(1).str("t").i32(1).i32(0).i64(-1)
	a := c.call(2, w.b, 5*time.Second).b
	m.SimplePost("t", 0, nil, []byte{1})
	b := c.call(2, w.b, 5*time.Second).b
	if a[len(a)-17] != 3 || b[len(b)-17] != 0 {
		t.Fatal("errors", a, b)
	}
}""")
