// Package harness drives the rewritten gev under the simulator: workloads, faults, oracles.
package harness

import (
	"gevsim/core"
	"gevsim/kern"
)

// Spec describes one run completely; together with the seed (or the recorded deviations) it
// determines every step.
type Spec struct {
	Prop     string      `json:"prop"`
	Kind     string      `json:"kind"`
	Note     string      `json:"note,omitempty"`
	Of       string      `json:"of,omitempty"` // the property whose workload this is
	Seed     uint64      `json:"seed"`
	Sched    core.Sched  `json:"sched"`
	MaxSteps int64       `json:"maxsteps,omitempty"`
	NumCPU   int         `json:"ncpu,omitempty"`
	DepRaces bool        `json:"depraces,omitempty"`
	Srv      SrvSpec     `json:"srv"`
	Faults   kern.Faults `json:"faults"`
	MaxFD    int         `json:"maxfd,omitempty"`
	FDTill   int64       `json:"fdtill,omitempty"` // descriptor limit lifted after (us)
	Clients  []ClSpec    `json:"clients,omitempty"`
	Actors   []Actor     `json:"actors,omitempty"`
	Limit    int64       `json:"limit,omitempty"` // workload time limit (ms)
	Mate     *MateSpec   `json:"mate,omitempty"`
	Aim      []string    `json:"-"`                  // classes that count for the property
	P        []int64     `json:"p,omitempty"`        // profile-specific parameters
	EmptyPM  int         `json:"empty,omitempty"`    // share of the messages that are empty: nothing is sent for them
	Jumps    [][2]int64  `json:"jumps,omitempty"`    // the wall clock is set: at (us) by (ms)
	Hush     bool        `json:"hush,omitempty"`     // look at the loops while peers do not read
	Ghosts   int         `json:"ghosts,omitempty"`   // other users of the buffer pools
	Races    bool        `json:"races,omitempty"`    // look for data races
	KeepOpen bool        `json:"keepopen,omitempty"` // stop the server with the connections open
}

// SrvSpec configures the server.
type SrvSpec struct {
	Loops    int    `json:"loops"`
	Addr     string `json:"addr,omitempty"`
	Net      string `json:"net,omitempty"`
	Reuse    bool   `json:"reuse,omitempty"`
	IdleMS   int64  `json:"idle,omitempty"`
	Proto    string `json:"proto,omitempty"`    // raw, rec, pb, ws
	CloseMsg bool   `json:"closemsg,omitempty"` // ws: some messages are sent as close frames
	LB       string `json:"lb,omitempty"`       // rr, lc, def
	Packet   int    `json:"packet,omitempty"`
	UserB    int    `json:"userb,omitempty"`
	TaskQ    int    `json:"taskq,omitempty"`
	Wrap     bool   `json:"wrap,omitempty"`   // the protocol mix consumes so that what is left often wraps around
	Hooks    int    `json:"hooks,omitempty"`  // ws: the upgrader's hooks
	Decoy    bool   `json:"decoy,omitempty"`  // another balancer of the same kind is in use
	Direct   int    `json:"direct,omitempty"` // so many calls of a balancer of the application
	LateUS   int64  `json:"late,omitempty"`   // Start is called this late
}

// ClSpec is one peer.
type ClSpec struct {
	At    int64   `json:"at,omitempty"`    // us
	After int     `json:"after,omitempty"` // 1+peer: dials when the server closes that peer's descriptor (or at At, if that comes first)
	V6    bool    `json:"v6,omitempty"`
	Snd   int     `json:"snd,omitempty"`
	Rcv   int     `json:"rcv,omitempty"`
	Win   int     `json:"win,omitempty"`
	Chunk int     `json:"chunk,omitempty"`
	Delay int64   `json:"delay,omitempty"` // us between reads
	Ops   []Op    `json:"ops,omitempty"`
	Pol   Policy  `json:"pol"`
	Items []Item  `json:"items,omitempty"` // framed input (pb, ws)
	Hs    *HsSpec `json:"hs,omitempty"`
	Raw   []byte  `json:"raw,omitempty"` // hostile bytes
	Dev   bool    `json:"dev,omitempty"` // poller: not a socket but something like the end of a pipe
	Bad   bool    `json:"bad,omitempty"` // hostile peer: no guarantees for it
}

// Op is one step of a peer or an actor.
type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S string `json:"s,omitempty"`
	Y int64  `json:"y,omitempty"` // the goroutine is held up after Y steps inside the call
	Z int64  `json:"z,omitempty"` // for Z us
}

// Act is something the message callback does once the connection has received At bytes.
type Act struct {
	At int64  `json:"at"`
	K  string `json:"k"`
	A  int64  `json:"a,omitempty"`
	B  int64  `json:"b,omitempty"`
}

// Policy is what the application does for a connection.
type Policy struct {
	ReplyPM  int   `json:"reply,omitempty"` // per mille of callbacks that return a reply
	ReplyMax int   `json:"rmax,omitempty"`
	ReplyEq  []int `json:"req,omitempty"`  // sizes half of the messages have exactly
	SendPM   int   `json:"send,omitempty"` // per mille of callbacks that call Send
	SlowPM   int   `json:"slow,omitempty"`
	SlowUS   int64 `json:"slowus,omitempty"`
	OnConn   []Act `json:"onconn,omitempty"`
	Acts     []Act `json:"acts,omitempty"`
	HoldPM   int   `json:"hold,omitempty"`  // per mille of callbacks after which the loop is held up
	HoldY    int   `json:"holdy,omitempty"` // after up to this many steps
	HoldUS   int64 `json:"holdus,omitempty"`
	InClose  int   `json:"inclose,omitempty"` // 1: call Send/Close from OnClose
}

// Actor is an application goroutine.
type Actor struct {
	At  int64 `json:"at,omitempty"`
	Ops []Op  `json:"ops"`
}

// Item is one framed message of a peer.
type Item struct {
	K    int    `json:"k"`           // ws: opcode; pb: kind
	T    string `json:"t,omitempty"` // pb: type
	N    int    `json:"n"`           // payload length
	M    uint32 `json:"m,omitempty"` // ws: mask
	Code int    `json:"c,omitempty"` // ws close: status
	X    int    `json:"x,omitempty"` // variant
}

// HsSpec describes a WebSocket handshake request.
type HsSpec struct {
	Bad    string   `json:"bad,omitempty"` // what is wrong with it, if anything
	Pre    []string `json:"pre,omitempty"` // invalid requests (what is wrong) sent before it
	Extra  []string `json:"extra,omitempty"`
	Proto  []string `json:"proto,omitempty"`
	Lower  bool     `json:"lower,omitempty"`
	Key    string   `json:"key,omitempty"`
	Path   string   `json:"path,omitempty"`
	ConnHd string   `json:"conn,omitempty"`
	UpHd   string   `json:"up,omitempty"`
	Exts   []string `json:"exts,omitempty"`
	Shuf   uint64   `json:"shuf,omitempty"` // order of the header lines
	Ver    string   `json:"ver,omitempty"`  // HTTP version of a good request
	BadVer string   `json:"bver,omitempty"` // and of a bad one
	OWS    string   `json:"ows,omitempty"`  // white space after the colons, "|" and before the line ends
	Rej    *Rej     `json:"rej,omitempty"`  // how a hook rejects the requests of kind "rej"
}

// Result of one run.
type Result struct {
	Class    string
	Msg      string
	Why      string
	Hash     uint64
	IL       uint64
	Steps    int64
	Switches int64
	Decs     int64
	Preempts int64
	Stalls   int64
	Events   int64
	SimNS    int64
	Devs     []core.Dev
	Counters map[string]int64
	Anomaly  map[string]int64
	AnomMsg  map[string]string
	Trace    []string
}

// Violated tells whether the run violated the property it was aimed at.
func (r *Result) Violated() bool { return r.Class != "" && r.Class != "abort" }
