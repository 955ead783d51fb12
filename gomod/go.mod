module github.com/mottla/go-AlgebraicProgram-SNARK

go 1.21

require github.com/stretchr/testify v1.12.1

require go.yaml.in/yaml/v3 v3.0.5 // indirect
