module github.com/anacrolix/missinggo/v2

go 1.21
