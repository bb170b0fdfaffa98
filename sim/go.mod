module verif/sim

go 1.24

require github.com/signintech/pdft v0.0.0

replace github.com/signintech/pdft => /repo
