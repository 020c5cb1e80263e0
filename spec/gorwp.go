package rpspec

import (
	"context"

	"github.com/SKAARHOJ/rawpanel-lib/gorwp"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"github.com/SKAARHOJ/rawpanel-lib/topology"
)

// GorwpApp is an application of the high-level client. It does what its environment asks for: one
// number per action, action*1000 + component id. Everything it sees is handed to the environment.
func GorwpApp(addr string, ctx context.Context, cancel context.CancelFunc, acts <-chan int,
	connected func(*gorwp.RawPanel, bool),
	onBinary func(uint32, gorwp.BinaryStatus, gorwp.BinaryEdge),
	onValue func(kind int, id uint32, v int),
	onTrigger func(uint32, *rwp.HWCEvent),
	onState func(name, serial, model string, top *topology.Topology, init bool)) {

	rp, err := gorwp.Connect(addr, ctx, cancel)
	connected(rp, err == nil)
	if err != nil {
		return
	}
	n := uint32(0)
	feedback := func(k int) {
		for i := 0; i < k; i++ {
			n++
			rp.SendRawState(&rwp.HWCState{HWCIDs: []uint32{n}})
		}
	}
	bind := func(act int, id uint32) {
		switch act {
		case 1:
			rp.BindBinary(id, func(i uint32, s gorwp.BinaryStatus, e gorwp.BinaryEdge) { onBinary(i, s, e) })
		case 2:
			rp.BindPulsed(id, func(i uint32, v int) { onValue(2, i, v) })
		case 3:
			rp.BindAbsolute(id, func(i uint32, v int) { onValue(3, i, v) })
		case 4:
			rp.BindIntensity(id, func(i uint32, v int) { onValue(4, i, v) })
		case 5:
			rp.BindTrigger(id, func(i uint32, ev *rwp.HWCEvent) { onTrigger(i, ev) })
		}
	}
	for a := range acts {
		act, id := a/1000, uint32(a%1000)
		switch act {
		case 1, 2, 3, 4, 5:
			bind(act, id)
		case 6, 7, 8: // feedback from the handler: one, three or fourteen messages
			k := []int{1, 3, 14}[act-6]
			rp.BindBinary(id, func(i uint32, s gorwp.BinaryStatus, e gorwp.BinaryEdge) {
				feedback(k)
				onBinary(i, s, e)
			})
		case 9: // a handler that binds handlers of other components
			rp.BindBinary(id, func(i uint32, s gorwp.BinaryStatus, e gorwp.BinaryEdge) {
				onBinary(i, s, e)
				for k := 1; k <= 5; k++ {
					bind(k, id+1)
				}
			})
		case 10:
			onState(rp.State.GetName(), rp.State.GetSerial(), rp.State.GetModel(), rp.State.GetTopology(), rp.IsInitialized())
		case 11: // output from the application's own goroutine
			rp.SendRawState(&rwp.HWCState{HWCIDs: []uint32{5000}})
		case 12:
			rp.Close()
		case 13: // a handler that looks at the state
			rp.BindBinary(id, func(i uint32, s gorwp.BinaryStatus, e gorwp.BinaryEdge) {
				onBinary(i, s, e)
				onState(rp.State.GetName(), rp.State.GetSerial(), rp.State.GetModel(), rp.State.GetTopology(), rp.IsInitialized())
			})
		case 14: // the handler is replaced
			rp.BindPulsed(id, func(i uint32, v int) { onValue(14, i, v) })
		case 15: // a handler that replaces itself
			rp.BindPulsed(id, func(i uint32, v int) {
				onValue(2, i, v)
				rp.BindPulsed(id, func(i uint32, v int) { onValue(14, i, v) })
			})
		case 17: // one getter alone
			rp.State.GetName()
		case 18:
			rp.State.GetSerial()
		case 19:
			rp.State.GetModel()
		case 20:
			rp.State.GetTopology()
		case 21:
			rp.IsInitialized()
		case 16: // all kinds with feedback
			rp.BindPulsed(id, func(i uint32, v int) { feedback(1); onValue(2, i, v) })
			rp.BindAbsolute(id, func(i uint32, v int) { feedback(1); onValue(3, i, v) })
			rp.BindIntensity(id, func(i uint32, v int) { feedback(1); onValue(4, i, v) })
			rp.BindTrigger(id, func(i uint32, ev *rwp.HWCEvent) { feedback(1); onTrigger(i, ev) })
		}
	}
}
