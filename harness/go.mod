module xverif

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/bwesterb/byteswriter v1.0.0
	github.com/bwesterb/go-xmssmt v0.0.0
	github.com/cespare/xxhash v1.1.0
	github.com/edsrzf/mmap-go v1.1.0
	github.com/hashicorp/go-multierror v1.1.1
	github.com/nightlyone/lockfile v1.0.0
	github.com/templexxx/xorsimd v0.4.1
	golang.org/x/crypto v0.0.0-20220518034528-6f7dac969898
	golang.org/x/sys v0.0.0-20220519141025-dcacdad47464
)

require (
	github.com/hashicorp/errwrap v1.1.0 // indirect
	github.com/templexxx/cpu v0.0.9 // indirect
)

replace github.com/bwesterb/go-xmssmt => /repo
