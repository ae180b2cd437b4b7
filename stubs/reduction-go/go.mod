module reduction.dev/reduction-go

go 1.24
