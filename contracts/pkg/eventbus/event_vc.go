//go:build go1.21

package eventbus

import (
	"github.com/BTBurke/monny/internal/vc"
)

// What the stubbed NewEvent has made last, for the contracts of other packages.
var (
	VcMade   []byte
	VcKind   EventType
	VcLog    any
	VcFailed bool
)

type encodeError struct{}

func (encodeError) Error() string { return "encode" }

// VcData is what the event carries.
func VcData(e Event) []byte { return e.d }

//vc:extern NewEvent when=emit
func stubNewEvent(t EventType, data any) (Event, error) {
	if _, ok := data.(string); ok {
		return Event{t: t}, nil
	}
	d := vc.Nondet[[]byte]("event")
	VcMade, VcKind, VcLog, VcFailed = d, t, data, vc.Nondet[bool]("fails")
	if VcFailed {
		return Event{}, encodeError{}
	}
	return Event{t: t, d: d}, nil
}
