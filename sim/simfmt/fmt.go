// Package simfmt replaces fmt: printing goes to the simulated standard output.
package simfmt

import (
	std "fmt"

	"github.com/mlange-42/bbn/internal/verifsim/simos"
)

func Print(a ...any) (int, error)                 { return std.Fprint(simos.Stdout, a...) }
func Println(a ...any) (int, error)               { return std.Fprintln(simos.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return std.Fprintf(simos.Stdout, format, a...) }
func Scan(a ...any) (int, error)                  { return std.Fscan(simos.Stdin, a...) }
func Scanln(a ...any) (int, error)                { return std.Fscanln(simos.Stdin, a...) }
func Scanf(format string, a ...any) (int, error)  { return std.Fscanf(simos.Stdin, format, a...) }
