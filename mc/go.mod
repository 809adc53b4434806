module gopdfmc

go 1.23

require github.com/signintech/gopdf v0.0.0

require github.com/phpdave11/gofpdi v1.0.14-0.20211212211723-1f10f9844311

require github.com/pkg/errors v0.8.1 // indirect

replace github.com/signintech/gopdf => /repo
