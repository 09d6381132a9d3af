package main_server

import "github.com/madkins23/go-slog/internal/data"

// Reset makes the data of the command as new, with these text files.
func Reset(names, paths []string) {
	bench, warns = data.NewBenchmarks(), data.NewWarnings()
	var items []*TextItem
	for i, n := range names {
		items = append(items, &TextItem{Name: n, Path: paths[i], Summary: "some `text`"})
	}
	text = NewTextCache(items...)
}
