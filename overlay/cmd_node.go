package cmdnode

// Access to the program cmd/tecdsa for the lemmas. Added by overlay, not part of the repository.

import (
	"flag"
	"math/big"
	"os"

	"lemmas/gv"
)

// VMain runs the program
func VMain(args ...string) {
	os.Args = append([]string{"tecdsa"}, args...)
	if gv.Concrete() {
		flag.CommandLine = flag.NewFlagSet("tecdsa", flag.ContinueOnError)
	}
	main()
}

// VMember reads the file of one party
func VMember(file string) (n, lambda, phi *big.Int, pid int, err error) {
	m, err := getMember /*func*/ (file)
	if err != nil {
		return nil, nil, nil, 0, err
	}
	key := m.privateKey /*member.privateKey*/
	return key.N, key.LambdaN, key.PhiN, m.pid /*member.pid*/, nil
}

// VCommittee reads the list of all parties
func VCommittee(file string) (ns []*big.Int, addresses []string, err error) {
	c, err := getCommittee /*func*/ (file)
	if err != nil {
		return nil, nil, err
	}
	for _, k := range c.publicKeys /*committee.publicKeys*/ {
		ns = append(ns, k.N)
	}
	return ns, c.addresses /*committee.addresses*/, nil
}
