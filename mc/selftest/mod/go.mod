module github.com/muguangyi/ferry

go 1.14
