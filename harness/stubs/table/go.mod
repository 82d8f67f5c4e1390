module github.com/phil-mansfield/table

go 1.16
