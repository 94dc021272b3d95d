module auto

go 1.21
