module zrw

go 1.21
