//go:build verif

package hxh

import (
	"context"
	"os"
	"os/signal"

	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/internal/reporting"
	"go.uber.org/zap"
)

// Willow, Limiter and Locker run the main functions of the commands; the engine knows where they are.
func Willow()  {}
func Limiter() {}
func Locker()  {}

var _ = signal.NotifyContext
var _ = reporting.NewZapLogger

// Process is a command that runs.
type Process struct {
	Ended, Failed bool
	stop          []context.CancelFunc
}

type exit struct{ code int }

// starting is the process of the main function that runs; nil when commands are not what is checked.
var starting *Process

// Start runs a command. It has to come to rest before another one is started.
func Start(main func(), args ...string) *Process {
	p := &Process{}
	starting = p
	os.Args = append([]string{"command"}, args...)
	go func() {
		defer func() {
			p.Ended = true
			if r := recover(); r != nil {
				e, ok := r.(exit)
				if !ok {
					panic(r)
				}
				p.Failed = e.code != 0
			}
		}()
		main()
	}()
	return p
}

// Interrupt sends the process the signal to stop; it has no effect where the signal is not waited for.
func (p *Process) Interrupt() {
	if len(p.stop) == 0 { // not handled: the process ends
		p.Ended, p.Failed = true, true
	}
	for _, stop := range p.stop {
		stop()
	}
}

// ModelNotifyContext replaces signal.NotifyContext in the engine.
func ModelNotifyContext(parent context.Context, _ ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, stop := context.WithCancel(parent)
	starting.stop = append(starting.stop, stop)
	return ctx, stop
}

// ModelNewZapLogger replaces reporting.NewZapLogger in the engine.
func ModelNewZapLogger(config.Config) *zap.Logger { return zap.NewNop() }

func crash(int)         {}
func crashFatal(string) {}

// ModelExit replaces os.Exit in the engine.
func ModelExit(code int) {
	if starting == nil {
		crash(code)
	}
	panic(exit{code})
}

// ModelLogFatal replaces log.Fatal in the engine.
func ModelLogFatal(...any) { ModelExit(1) }

// ModelFatal replaces (*zap.Logger).Fatal in the engine.
func ModelFatal(_ *zap.Logger, msg string, _ ...zap.Field) {
	if starting == nil {
		crashFatal(msg)
	}
	panic(exit{1})
}
