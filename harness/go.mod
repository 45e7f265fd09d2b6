module verif

go 1.23.0

require (
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/lyokato/goidc v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/google/go-querystring v1.2.0 // indirect
	github.com/lestrrat/go-jwx v0.0.0 // indirect
)

replace github.com/lyokato/goidc => /repo

replace github.com/lestrrat/go-jwx => ./shim/go-jwx
