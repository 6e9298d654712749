module mutgen
go 1.20
