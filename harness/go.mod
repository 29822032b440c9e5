module dripverif

go 1.25
