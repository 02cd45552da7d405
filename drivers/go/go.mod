module driver

go 1.20

require github.com/crate-crypto/rust-eth-kzg v0.0.0

replace github.com/crate-crypto/rust-eth-kzg => ../ws/bindings/golang
