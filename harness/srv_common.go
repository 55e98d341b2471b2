package kafkamock

// Shared by the server harnesses: they drive the mock through its public API and, as a client, through
// the bytes on a connection. Nothing of the server's internals is referred to.

import (
	"time"
)

const vSec = int64(1000000000)

const (
	apiFetch       = 1
	apiListOffsets = 2
	apiMetadata    = 3
	apiCommit      = 8
	apiOffsetFetch = 9
	apiFindCoord   = 10
	apiJoin        = 11
	apiHeartbeat   = 12
	apiLeave       = 13
	apiSync        = 14
	apiVers        = 18
)

// vApiVer is the version of each supported API.
func vApiVer(api int16) int16 {
	switch api {
	case apiFetch, apiCommit:
		return 2
	case apiListOffsets, apiMetadata, apiOffsetFetch, apiJoin:
		return 1
	}
	return 0
}

var vApis = []int16{apiFetch, apiListOffsets, apiMetadata, apiCommit, apiOffsetFetch, apiFindCoord, apiJoin, apiHeartbeat, apiLeave, apiSync, apiVers}

// vW builds request bytes.
type vW struct{ b []byte }

func (w *vW) i8(v int8) *vW   { w.b = append(w.b, byte(v)); return w }
func (w *vW) i16(v int16) *vW { w.b = append(w.b, byte(v>>8), byte(v)); return w }
func (w *vW) i32(v int32) *vW {
	w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	return w
}
func (w *vW) i64(v int64) *vW { return w.i32(int32(v >> 32)).i32(int32(v)) }
func (w *vW) str(s string) *vW {
	w.i16(int16(len(s)))
	w.b = append(w.b, s...)
	return w
}
func (w *vW) nstr() *vW { return w.i16(-1) }
func (w *vW) bytes(b []byte) *vW {
	w.i32(int32(len(b)))
	w.b = append(w.b, b...)
	return w
}
func (w *vW) raw(b []byte) *vW { w.b = append(w.b, b...); return w }

// vFrame is one complete request.
func vFrame(api, ver int16, corr int32, client string, body []byte) []byte {
	h := new(vW).i16(api).i16(ver).i32(corr).str(client).raw(body)
	return new(vW).i32(int32(len(h.b))).raw(h.b).b
}

func vReq(api int16, corr int32, body []byte) []byte {
	return vFrame(api, vApiVer(api), corr, "c", body)
}

// vR reads response bytes; bad is set when they run out.
type vR struct {
	b   []byte
	pos int
	bad bool
}

func (r *vR) take(n int) []byte {
	if n < 0 || r.pos+n > len(r.b) {
		r.bad = true
		return make([]byte, 64)
	}
	x := r.b[r.pos : r.pos+n]
	r.pos += n
	return x
}
func (r *vR) i8() int8   { return int8(r.take(1)[0]) }
func (r *vR) i16() int16 { x := r.take(2); return int16(uint16(x[0])<<8 | uint16(x[1])) }
func (r *vR) i32() int32 {
	x := r.take(4)
	return int32(uint32(x[0])<<24 | uint32(x[1])<<16 | uint32(x[2])<<8 | uint32(x[3]))
}
func (r *vR) i64() int64 {
	hi, lo := r.i32(), r.i32()
	return int64(hi)<<32 | int64(uint32(lo))
}
func (r *vR) str() string {
	n := int(int16(vConcrete(int64(r.i16()))))
	if n < 0 {
		return ""
	}
	return string(r.take(n))
}

// count reads an array length; a null or absurd one reads as bad.
func (r *vR) count() int {
	n := int(int32(vConcrete(int64(r.i32()))))
	if n < 0 || n > 10000 {
		r.bad = true
		return 0
	}
	return n
}

// byteArr reads a byte array; null is reported as nil.
func (r *vR) byteArr() []byte {
	n := int(int32(vConcrete(int64(r.i32()))))
	if n < 0 {
		return nil
	}
	return r.take(n)
}

func (r *vR) end(what string) {
	vAssert(!r.bad, what+": response is shorter than its contents")
	vAssert(r.pos == len(r.b), what+": response has bytes left over")
}

// vMs is a time from milliseconds since 1970.
func vMs(ms int64) time.Time { return time.UnixMilli(ms) }

type vSrv struct {
	km   *KafkaMock
	port uint
}

func vNewSrv() *vSrv {
	port := vFreePort()
	return &vSrv{NewKafkaMock(vNewLane(), port), port}
}

func vStartSrv() *vSrv {
	s := vNewSrv()
	s.km.Start()
	return s
}

func (s *vSrv) dial() *vCli {
	c := vDial(s.port, 10*vSec)
	vAssert(c != nil, "the server does not accept a connection")
	return c
}

// frame receives one response: its correlation id and body.
func (c *vCli) frame(timeoutNs int64, what string) (corr int32, body *vR) {
	h := c.Recv(4, timeoutNs)
	vAssert(len(h) == 4, what+": no response")
	n := int(int32(vConcrete(int64((&vR{b: h}).i32()))))
	vAssert(n >= 4 && n < 1<<24, what+": absurd response size")
	b := c.Recv(n, 5*vSec)
	vAssert(len(b) == n, what+": response shorter than its size says")
	r := &vR{b: b}
	return r.i32(), &vR{b: b[4:]}
}

// call sends one request and waits for its response.
func (c *vCli) call(api int16, body []byte, what string) *vR { return c.callT(api, body, 30*vSec, what) }

func (c *vCli) callT(api int16, body []byte, timeoutNs int64, what string) *vR {
	c.Send(vReq(api, 77, body))
	corr, r := c.frame(timeoutNs, what)
	vAssert(corr == 77, what+": wrong correlation id")
	return r
}

// ---- fetch

type vFetchPart struct {
	part   int32
	offset int64
	max    int32
}

type vFetchTopic struct {
	topic string
	parts []vFetchPart
}

func vFetchBody(wait int32, ts []vFetchTopic) []byte {
	w := new(vW).i32(-1).i32(wait).i32(1).i32(int32(len(ts)))
	for _, t := range ts {
		w.str(t.topic).i32(int32(len(t.parts)))
		for _, p := range t.parts {
			w.i32(p.part).i64(p.offset).i32(p.max)
		}
	}
	return w.b
}

type vMsg struct {
	offset, ts int64
	key, value []byte
	size, crc  int32
	magic, att int8
	raw        []byte // from the magic byte on
}

type vFetched struct {
	part    int32
	err     int16
	hwm     int64
	setSize int
	msgs    []vMsg
}

type vFetchedTopic struct {
	topic string
	parts []vFetched
}

// vParseFetch reads a fetch response. Messages are stepped through by their contents, so that the sizes
// they state can be judged separately.
func vParseFetch(r *vR) []vFetchedTopic {
	r.i32() // throttle time
	var out []vFetchedTopic
	for n := r.count(); n > 0 && !r.bad; n-- {
		t := vFetchedTopic{topic: r.str()}
		for k := r.count(); k > 0 && !r.bad; k-- {
			p := vFetched{part: r.i32(), err: r.i16(), hwm: r.i64()}
			p.setSize = int(int32(vConcrete(int64(r.i32()))))
			set := &vR{b: r.take(p.setSize)}
			if r.bad {
				break
			}
			for set.pos < len(set.b) && !set.bad {
				m := vMsg{offset: set.i64(), size: set.i32(), crc: set.i32()}
				at := set.pos
				m.magic, m.att, m.ts = set.i8(), set.i8(), set.i64()
				m.key = set.byteArr()
				m.value = set.byteArr()
				if !set.bad {
					m.raw = set.b[at:set.pos]
				}
				p.msgs = append(p.msgs, m)
			}
			vAssert(!set.bad, "fetch: the record set is not a whole number of messages")
			t.parts = append(t.parts, p)
		}
		out = append(out, t)
	}
	r.end("fetch")
	return out
}

func (c *vCli) fetch(wait int32, ts []vFetchTopic) []vFetchedTopic {
	return vParseFetch(c.call(apiFetch, vFetchBody(wait, ts), "fetch"))
}

// fetch1 fetches from one partition.
func (c *vCli) fetch1(wait int32, topic string, part int32, offset int64, max int32) vFetched {
	ts := c.fetch(wait, []vFetchTopic{{topic, []vFetchPart{{part, offset, max}}}})
	vAssert(len(ts) == 1 && len(ts[0].parts) == 1, "fetch: the requested partition is not answered exactly once")
	vAssert(vStrEq(ts[0].topic, topic) && ts[0].parts[0].part == part, "fetch: another partition is answered")
	f := ts[0].parts[0]
	vAssert(len(f.msgs) == 0 || f.err == 0, "fetch: records are returned with an error")
	return f
}

// vRec is what a test posted.
type vRec struct {
	key, value []byte
	ts         int64
}

func (s *vSrv) post(topic string, part int, r vRec) {
	s.km.ExtendedPost(topic, part, r.key, r.value, nil, vMs(r.ts))
}

func vBytesSame(a, b []byte) bool { return (a == nil) == (b == nil) && vBytesEq(a, b) }

// vIsRec asserts that m is record r at the given offset.
func vIsRec(m vMsg, r vRec, offset int64) {
	vAssert(m.offset == offset, "a fetched record has another record's offset")
	vAssert(m.ts == r.ts, "a fetched record's timestamp differs from the posted one")
	vAssert((m.key == nil) == (r.key == nil) && (m.value == nil) == (r.value == nil), "null and empty are confused in a fetched record")
	vAssert(vBytesEq(m.key, r.key), "a fetched record's key differs from the posted one")
	vAssert(vBytesEq(m.value, r.value), "a fetched record's value differs from the posted one")
}

// ---- list offsets

type vLoPart struct {
	part int32
	ts   int64
}

type vLoTopic struct {
	topic string
	parts []vLoPart
}

func vLoBody(ts []vLoTopic) []byte {
	w := new(vW).i32(-1).i32(int32(len(ts)))
	for _, t := range ts {
		w.str(t.topic).i32(int32(len(t.parts)))
		for _, p := range t.parts {
			w.i32(p.part).i64(p.ts)
		}
	}
	return w.b
}

type vLoRes struct {
	part       int32
	err        int16
	ts, offset int64
}

type vLoResTopic struct {
	topic string
	parts []vLoRes
}

func (c *vCli) listOffsets(ts []vLoTopic) []vLoResTopic {
	r := c.call(apiListOffsets, vLoBody(ts), "list offsets")
	var out []vLoResTopic
	for n := r.count(); n > 0 && !r.bad; n-- {
		t := vLoResTopic{topic: r.str()}
		for k := r.count(); k > 0 && !r.bad; k-- {
			t.parts = append(t.parts, vLoRes{part: r.i32(), err: r.i16(), ts: r.i64(), offset: r.i64()})
		}
		out = append(out, t)
	}
	r.end("list offsets")
	return out
}

func (c *vCli) listOffset1(topic string, part int32, ts int64) vLoRes {
	o := c.listOffsets([]vLoTopic{{topic, []vLoPart{{part, ts}}}})
	vAssert(len(o) == 1 && len(o[0].parts) == 1, "list offsets: the requested partition is not answered exactly once")
	vAssert(vStrEq(o[0].topic, topic) && o[0].parts[0].part == part, "list offsets: another partition is answered")
	return o[0].parts[0]
}

// ---- offset commit and fetch

type vCmPart struct {
	part   int32
	offset int64
}

type vCmTopic struct {
	topic string
	parts []vCmPart
}

func vCommitBody(group string, ts []vCmTopic) []byte {
	w := new(vW).str(group).i32(1).str("m").i64(-1).i32(int32(len(ts)))
	for _, t := range ts {
		w.str(t.topic).i32(int32(len(t.parts)))
		for _, p := range t.parts {
			w.i32(p.part).i64(p.offset).nstr()
		}
	}
	return w.b
}

type vCmRes struct {
	part int32
	err  int16
}

type vCmResTopic struct {
	topic string
	parts []vCmRes
}

func vParseCommit(r *vR) []vCmResTopic {
	var out []vCmResTopic
	for n := r.count(); n > 0 && !r.bad; n-- {
		t := vCmResTopic{topic: r.str()}
		for k := r.count(); k > 0 && !r.bad; k-- {
			t.parts = append(t.parts, vCmRes{part: r.i32(), err: r.i16()})
		}
		out = append(out, t)
	}
	r.end("offset commit")
	return out
}

func (c *vCli) commit(group string, ts []vCmTopic) []vCmResTopic {
	return vParseCommit(c.call(apiCommit, vCommitBody(group, ts), "offset commit"))
}

// commit1 commits one offset and asserts that it is accepted.
func (c *vCli) commit1(group, topic string, part int32, offset int64) {
	o := c.commit(group, []vCmTopic{{topic, []vCmPart{{part, offset}}}})
	vAssert(len(o) == 1 && len(o[0].parts) == 1, "offset commit: the partition is not answered exactly once")
	vAssert(vStrEq(o[0].topic, topic) && o[0].parts[0].part == part && o[0].parts[0].err == 0, "offset commit is not confirmed without error")
}

type vOfTopic struct {
	topic string
	parts []int32
}

func vOffsetFetchBody(group string, ts []vOfTopic) []byte {
	w := new(vW).str(group).i32(int32(len(ts)))
	for _, t := range ts {
		w.str(t.topic).i32(int32(len(t.parts)))
		for _, p := range t.parts {
			w.i32(p)
		}
	}
	return w.b
}

type vOfRes struct {
	part   int32
	offset int64
	err    int16
}

type vOfResTopic struct {
	topic string
	parts []vOfRes
}

func (c *vCli) offsetFetch(group string, ts []vOfTopic) []vOfResTopic {
	return vParseOffsetFetch(c.call(apiOffsetFetch, vOffsetFetchBody(group, ts), "offset fetch"))
}

func vParseOffsetFetch(r *vR) []vOfResTopic {
	var out []vOfResTopic
	for n := r.count(); n > 0 && !r.bad; n-- {
		t := vOfResTopic{topic: r.str()}
		for k := r.count(); k > 0 && !r.bad; k-- {
			p := vOfRes{part: r.i32(), offset: r.i64()}
			r.str()
			p.err = r.i16()
			t.parts = append(t.parts, p)
		}
		out = append(out, t)
	}
	r.end("offset fetch")
	return out
}

// committed is the committed offset of one existing partition.
func (c *vCli) committed(group, topic string, part int32) int64 {
	o := c.offsetFetch(group, []vOfTopic{{topic, []int32{part}}})
	vAssert(len(o) == 1 && len(o[0].parts) == 1, "offset fetch: the partition is not answered exactly once")
	vAssert(vStrEq(o[0].topic, topic) && o[0].parts[0].part == part && o[0].parts[0].err == 0, "offset fetch is not answered without error")
	return o[0].parts[0].offset
}
