// Package logging stands in for github.com/amarin/logging v0.1.0, which cannot be built offline (its own
// dependencies are missing). It has the same API surface; messages go to VerifSink when it is set, else nowhere.
package logging

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strconv"
)

var Error = errors.New("logging")

type Level int

const (
	LevelTrace Level = 0
	LevelDebug Level = 1
	LevelInfo  Level = 2
	LevelWarn  Level = 3
	LevelError Level = 4
	LevelPanic Level = 5
	LevelFatal Level = 6

	DefaultLevel = LevelInfo
)

func (l Level) IsEnabledForLevel(level Level) bool { return level >= l }

func (l Level) String() string {
	names := []string{"trace", "debug", "info", "warn", "error", "panic", "fatal"}
	if l >= 0 && int(l) < len(names) {
		return names[l]
	}
	return "level" + strconv.Itoa(int(l))
}

type Key string

func (k Key) String() string { return string(k) }

type Keys map[Key]any

// Logger mirrors the interface of the real module.
type Logger interface {
	Level() Level
	IsEnabledForLevel(level Level) bool
	Trace(args ...interface{})
	Tracef(fmt string, args ...interface{})
	Debug(args ...interface{})
	Debugf(fmt string, args ...interface{})
	Info(args ...interface{})
	Infof(fmt string, args ...interface{})
	Warn(args ...interface{})
	Warnf(fmt string, args ...interface{})
	Error(args ...interface{})
	Errorf(fmt string, args ...interface{})
	Fatal(args ...interface{})
	Fatalf(fmt string, args ...interface{})
	WithKeys(fields Keys) Logger
	WithKey(key string, value any) Logger
	WithError(err error) Logger
	WithLevel(level Level) Logger
}

// VerifSink, when set, receives every message (harnesses set it before any concurrency starts).
var VerifSink func(level Level, message string)

type stub struct{ level Level }

func init() {
	if os.Getenv("VERIF_LOG") == "" {
		return
	}

	// messages become lines of the standard output, in order with everything else printed
	VerifSink = func(level Level, message string) {
		_, _ = os.Stdout.WriteString("\x01" + level.String() + "\x02" + message + "\x03\n")
	}
}

func (s stub) out(level Level, args ...interface{}) {
	if VerifSink != nil {
		VerifSink(level, fmt.Sprint(args...))
	}
}

func (s stub) outf(level Level, format string, args ...interface{}) {
	if VerifSink != nil {
		VerifSink(level, fmt.Sprintf(format, args...))
	}
}

func (s stub) Level() Level                         { return s.level }
func (s stub) IsEnabledForLevel(level Level) bool   { return level >= s.level }
func (s stub) Trace(args ...interface{})            { s.out(LevelTrace, args...) }
func (s stub) Tracef(f string, args ...interface{}) { s.outf(LevelTrace, f, args...) }
func (s stub) Debug(args ...interface{})            { s.out(LevelDebug, args...) }
func (s stub) Debugf(f string, args ...interface{}) { s.outf(LevelDebug, f, args...) }
func (s stub) Info(args ...interface{})             { s.out(LevelInfo, args...) }
func (s stub) Infof(f string, args ...interface{})  { s.outf(LevelInfo, f, args...) }
func (s stub) Warn(args ...interface{})             { s.out(LevelWarn, args...) }
func (s stub) Warnf(f string, args ...interface{})  { s.outf(LevelWarn, f, args...) }
func (s stub) Error(args ...interface{})            { s.out(LevelError, args...) }
func (s stub) Errorf(f string, args ...interface{}) { s.outf(LevelError, f, args...) }
func (s stub) Fatal(args ...interface{})            { s.out(LevelFatal, args...); panic("logging: fatal") }
func (s stub) Fatalf(f string, args ...interface{}) {
	s.outf(LevelFatal, f, args...)
	panic("logging: fatal")
}
func (s stub) WithKeys(_ Keys) Logger         { return s }
func (s stub) WithKey(_ string, _ any) Logger { return s }
func (s stub) WithError(_ error) Logger       { return s }
func (s stub) WithLevel(level Level) Logger   { s.level = level; return s }

type Config struct{ Level Level }

type Option func(c *Config)

func WithLevel(level Level) Option { return func(c *Config) { c.Level = level } }

func Init(opts ...Option) error {
	c := &Config{Level: DefaultLevel}
	for _, o := range opts {
		o(c)
	}
	return nil
}

func MustInit(opts ...Option) {
	if err := Init(opts...); err != nil {
		panic(err)
	}
}

func first(levels []Level) Level {
	if len(levels) > 0 {
		return levels[0]
	}
	return DefaultLevel
}

func NewLogger(levels ...Level) Logger                       { return stub{first(levels)} }
func NewNamedLogger(_ string, levels ...Level) Logger        { return stub{first(levels)} }
func NewLoggerCtx(_ context.Context, levels ...Level) Logger { return stub{first(levels)} }
func NewNamedLoggerCtx(_ context.Context, _ string, levels ...Level) Logger {
	return stub{first(levels)}
}
