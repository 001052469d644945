module driver

go 1.21
