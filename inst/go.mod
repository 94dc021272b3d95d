module inst

go 1.20
