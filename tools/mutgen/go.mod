module mutgen
go 1.25
