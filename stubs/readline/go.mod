module github.com/chzyer/readline

go 1.18
