module gentemplates

go 1.20
