// Command replay runs a harness function natively on a recorded assignment. The real main.go is
// generated from main.go.tmpl for each run, with the harness packages it needs.
package main

func main() {}
