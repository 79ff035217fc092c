module gzmc

go 1.24
