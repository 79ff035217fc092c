module genalias

go 1.24
