module github.com/rs/zerolog

go 1.19
