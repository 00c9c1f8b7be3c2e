package cmdgen

// Access to the program cmd/gen_keys for the lemmas. Added by overlay, not part of the repository.

import "os"

// VMain runs the program
func VMain(args ...string) {
	os.Args = append([]string{"gen_keys"}, args...)
	main()
}
