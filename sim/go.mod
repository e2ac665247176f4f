module verif.local/sim

go 1.26

require github.com/ecoshub/jin v0.0.0

replace github.com/ecoshub/jin => /repo
