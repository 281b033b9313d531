module verif.local/sim

go 1.27

require github.com/bifurcation/mint v0.0.0

require golang.org/x/crypto v0.0.0-20210513164829-c07d793c2f9a // indirect

replace github.com/bifurcation/mint => /repo
