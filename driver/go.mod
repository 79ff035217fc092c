module gzdriver

go 1.24
