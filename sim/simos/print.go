package simos

import "fmt"

// Print, Printf and Println write to the simulated standard output.
func Print(a ...any) (int, error)            { return fmt.Fprint(Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(Stdout, f, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(Stdout, a...) }

// Getpid is os.Getpid.
func Getpid() int { return 4242 }

// Abs mirrors filepath.Abs.
func Abs(p string) (string, error) { return cur().abs(p), nil }

// LogPrint and the others replace the functions of package log; there are no time stamps.
func LogPrint(a ...any)            { fmt.Fprintln(Stderr, fmt.Sprint(a...)) }
func LogPrintf(f string, a ...any) { fmt.Fprintln(Stderr, fmt.Sprintf(f, a...)) }
func LogPrintln(a ...any)          { fmt.Fprintln(Stderr, a...) }
func LogFatal(a ...any)            { LogPrint(a...); Exit(1) }
func LogFatalf(f string, a ...any) { LogPrintf(f, a...); Exit(1) }
func LogFatalln(a ...any)          { LogPrintln(a...); Exit(1) }
