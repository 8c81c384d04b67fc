module mut
go 1.25
