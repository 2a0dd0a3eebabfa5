package nd

import (
	"io"
	"os"
)

// Streams runs f with the given standard input and returns what it wrote to
// standard output and standard error.
func Streams(stdin string, f func()) (stdout, stderr string) {
	i, o, e := os.Stdin, os.Stdout, os.Stderr
	in, out, err := scratch(stdin), scratch(""), scratch("")
	defer func() {
		os.Stdin, os.Stdout, os.Stderr = i, o, e
		in.Close()
		out.Close()
		err.Close()
	}()
	os.Stdin, os.Stdout, os.Stderr = in, out, err
	f()
	return content(out), content(err)
}

// scratch is an unnamed file.
func scratch(text string) *os.File {
	f, err := os.CreateTemp("", "verif")
	if err == nil {
		err = os.Remove(f.Name())
	}
	if err == nil {
		_, err = f.WriteString(text)
	}
	if err == nil {
		_, err = f.Seek(0, 0)
	}
	if err != nil {
		panic(err)
	}
	return f
}

func content(f *os.File) string {
	_, err := f.Seek(0, 0)
	if err != nil {
		panic(err)
	}
	b, err := io.ReadAll(f)
	if err != nil {
		panic(err)
	}
	return string(b)
}
