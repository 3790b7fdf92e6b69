module github.com/anacrolix/generics

go 1.21
