module github.com/anacrolix/chansync

go 1.21
