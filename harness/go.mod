module verif/harness

go 1.22

require github.com/shellyln/takenoco v0.0.0-00010101000000-000000000000

replace github.com/shellyln/takenoco => /repo
