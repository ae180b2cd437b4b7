module fr

go 1.24
