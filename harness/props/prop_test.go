package props

import (
	"io"
	"testing"

	"github.com/sirupsen/logrus"
)

func TestProp(t *testing.T) {
	r := newRun(t)
	d, ok := drivers[r.Prop]
	if !ok {
		t.Fatalf("no driver for %q", r.Prop)
	}
	logrus.SetOutput(io.Discard)
	sysRoots()
	stop := make(chan struct{})
	go r.watchdog(stop)
	func() {
		// what was observed before the harness failed still counts
		defer r.flush()
		d(r)
	}()
	close(stop)
}

var drivers = map[string]func(*Run){
	"C01": driveC01,
	"C02": driveC02,
	"C03": driveC03,
	"C04": driveC04,
	"C05": driveC05,
	"C06": driveC06,
	"C07": driveC07,
	"C08": driveC08,
	"C09": driveC09,
	"C10": driveC10,
	"C11": driveC11,
	"C12": driveC12,
	"C13": driveC13,
	"C14": driveC14,
	"C15": driveC15,
	"C16": driveC16,
	"C17": driveC17,
	"C18": driveC18,
	"C19": driveC19,
	"C20": driveC20,
	"C21": driveC21,
	"C22": driveC22,
	"C23": driveC23,
	"C24": driveC24,
	"C25": driveC25,
	"C26": driveC26,
	"C27": driveC27,
	"C28": driveC28,
	"C29": driveC29,
	"C30": driveC30,
	"C31": driveC31,
	"C32": driveC32,
	"C33": driveC33,
	"C34": driveC34,
}
