module verif/harness

go 1.27.3

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/go-ini/ini v0.0.0
)

replace github.com/go-ini/ini => /repo
