// Package simlog replaces log: messages go to the simulated standard error,
// Fatal ends the simulated process.
package simlog

import (
	"fmt"
	"io"
	std "log"

	"github.com/mlange-42/bbn/internal/verifsim/simos"
)

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return simos.Stderr.Write(b) }

var logger = std.New(stderr{}, "", 0)

func Default() *std.Logger         { return logger }
func Writer() io.Writer            { return logger.Writer() }
func SetOutput(w io.Writer)        { logger.SetOutput(w) }
func SetPrefix(p string)           { logger.SetPrefix(p) }
func Prefix() string               { return logger.Prefix() }
func SetFlags(int)                 {}
func Flags() int                   { return 0 }
func Print(a ...any)               { logger.Print(a...) }
func Println(a ...any)             { logger.Println(a...) }
func Printf(f string, a ...any)    { logger.Printf(f, a...) }
func Output(d int, s string) error { return logger.Output(d+1, s) }
func Fatal(a ...any)               { logger.Print(a...); simos.Exit(1) }
func Fatalln(a ...any)             { logger.Println(a...); simos.Exit(1) }
func Fatalf(f string, a ...any)    { logger.Printf(f, a...); simos.Exit(1) }
func Panic(a ...any)               { s := fmt.Sprint(a...); logger.Print(s); panic(s) }
func Panicln(a ...any)             { s := fmt.Sprintln(a...); logger.Print(s); panic(s) }
func Panicf(f string, a ...any)    { s := fmt.Sprintf(f, a...); logger.Print(s); panic(s) }
