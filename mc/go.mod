module verif/mc

go 1.23

require github.com/bluekeyes/go-gitdiff v0.0.0

replace github.com/bluekeyes/go-gitdiff => /repo
