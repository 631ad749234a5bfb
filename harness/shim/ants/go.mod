module github.com/panjf2000/ants/v2

go 1.21
