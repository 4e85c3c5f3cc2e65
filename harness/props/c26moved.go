package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync/atomic"
	"time"

	"github.com/superisaac/jlib"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
)

// movedC26: an HTTP/2 server turns streams away (GOAWAY, REFUSED_STREAM) on a
// connection which has served some before, so that the transport of the
// client moves on to another connection. A client which says that it is
// connected has to be able to call.
func movedC26(r *Run, i int) {
	rng := r.Rand("moved", i)
	served := rng.IntN(3) // streams served on the first connection
	refuse := rng.IntN(3) // streams refused then
	how := pick(rng, "goaway", "goaway", "goaway hold", "goaway error", "drop", "reset", "headers then drop")
	calls := rng.IntN(3)
	c := map[string]any{"i": i, "part": "moved", "served": served, "refused": refuse, "end": how, "calls": calls}
	r.world("C26", c, rng, func(w *world) {
		var first atomic.Bool
		l := &planListener{Listener: w.Net.Listen("srv")}
		l.fault = func(n int, conn net.Conn) bool {
			if n > 1 {
				return false
			}
			w.onClose(func() { conn.Close() })
			go movedServer(conn, served, refuse, how, func() { first.Store(true) })
			return true
		}
		inner := rawHandler("h2", func(rc rawConn, hr *http.Request) {
			for {
				d, err := rc.ReadRaw()
				if err != nil {
					return
				}
				if q, err := parseReqIn(d); err == nil {
					b, _ := json.Marshal(answerDoc(q))
					rc.WriteRaw(b)
				}
			}
		})
		w.serveOn(l, h2cWrap(inner), nil)
		cl := w.client("h2c", "srv")
		key := ""
		stale := false
		for k := 0; k < served+3; k++ {
			var err error
			if !await(time.Minute, func() { err = cl.Connect(w.Ctx) }) {
				w.violate("moved-hangs", "connect %d hangs", k)
				return
			}
			if err != nil {
				key += " refused"
				time.Sleep(time.Second)
				continue
			}
			for j := 0; j <= calls; j++ {
				tok := fmt.Sprintf("k%d-%d", k, j)
				var m jlib.Message
				if !await(time.Minute, func() { m, err = cl.Call(w.Ctx, mkReq(j, "m", tok)) }) {
					w.violate("moved-hangs", "call %s hangs", tok)
					return
				}
				if how == "headers then drop" && !stale && (err != nil || m.IsError() && m.MustError().Code == jlib.ErrTimeout.Code) {
					stale = true // that connection was cut after the handshake
					break
				}
				if err != nil {
					w.violate("moved", "call %s of a client which is connected: %v", tok, err)
					return
				}
				if why := judgeAnswer(&callOut{msg: m, id: j, token: tok}); why != "" {
					w.violate("moved", "call %s: %s", tok, why)
					return
				}
			}
			key += " served"
			closeClient(cl)
			time.Sleep(time.Second)
		}
		r.Count("streams turned away", refuse)
		r.Eval(fmt.Sprintf("moved %d %d %s:%s", served, refuse, how, key))
	})
}

// movedServer serves a few streams, then turns away.
func movedServer(conn net.Conn, served, refuse int, how string, note func()) {
	preface := make([]byte, len(http2.ClientPreface))
	if _, err := io.ReadFull(conn, preface); err != nil {
		return
	}
	fr := http2.NewFramer(conn, conn)
	fr.WriteSettings()
	bufs := map[uint32]*bytes.Buffer{}
	last := uint32(0)
	head := func(id uint32) {
		var hb bytes.Buffer
		enc := hpack.NewEncoder(&hb)
		enc.WriteField(hpack.HeaderField{Name: ":status", Value: "200"})
		fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: hb.Bytes(), EndHeaders: true})
	}
	for {
		f, err := fr.ReadFrame()
		if err != nil {
			conn.Close()
			return
		}
		switch f := f.(type) {
		case *http2.SettingsFrame:
			if !f.IsAck() {
				fr.WriteSettingsAck()
			}
		case *http2.PingFrame:
			if !f.IsAck() {
				fr.WritePing(true, f.Data)
			}
		case *http2.HeadersFrame:
			id := f.StreamID
			switch {
			case len(bufs) < served:
				bufs[id] = &bytes.Buffer{}
				last = id
				head(id)
			case refuse > 0:
				refuse--
				fr.WriteRSTStream(id, http2.ErrCodeRefusedStream)
			default:
				switch how {
				case "goaway":
					fr.WriteGoAway(last, http2.ErrCodeNo, nil)
					conn.Close()
				case "goaway hold":
					fr.WriteGoAway(last, http2.ErrCodeNo, nil)
				case "goaway error":
					fr.WriteGoAway(last, http2.ErrCodeEnhanceYourCalm, nil)
					conn.Close()
				case "drop":
					conn.Close()
				case "reset":
					conn.(*MemConn).Reset()
				case "headers then drop":
					head(id)
					conn.Close()
				}
				note()
				if how != "goaway hold" {
					return
				}
			}
		case *http2.DataFrame:
			b := bufs[f.StreamID]
			if b == nil {
				continue
			}
			n := uint32(len(f.Data()))
			if n > 0 {
				fr.WriteWindowUpdate(0, n)
				fr.WriteWindowUpdate(f.StreamID, n)
			}
			b.Write(f.Data())
			for {
				dec := json.NewDecoder(bytes.NewReader(b.Bytes()))
				var d json.RawMessage
				if err := dec.Decode(&d); err != nil {
					if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
						conn.Close()
						return
					}
					break
				}
				b.Next(int(dec.InputOffset()))
				if q, err := parseReqIn(d); err == nil {
					a, _ := json.Marshal(answerDoc(q))
					fr.WriteData(f.StreamID, false, append(a, '\n'))
				}
			}
		}
	}
}
