package main

import (
	"fmt"
	"reflect"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
)

// containerBounds tells how many contents a container asks for.
func containerBounds(c grammars.Container) (min, max uint) {
	if c.IsElement() {
		card := c.Element().Cardinality()
		max = ^uint(0)
		if card.HasMax() {
			max = *card.Max()
		}
		return card.Min(), max
	}
	for _, one := range c.Compose().List() {
		min += one.Occurences()
	}
	return min, min
}

func valueContents(amount uint) (trees.Contents, error) {
	list := []trees.Content{}
	for i := uint(0); i < amount; i++ {
		value, err := trees.NewValueBuilder().Create().WithContent(byte(i)).Now()
		if err != nil {
			return nil, err
		}
		one, err := trees.NewContentBuilder().Create().WithValue(value).Now()
		if err != nil {
			return nil, err
		}
		list = append(list, one)
	}
	return trees.NewContentsBuilder().Create().WithList(list).Now()
}

// lineSuccess builds lines of trees out of a line of a grammar, with all its containers, with one of them missing, short by one or
// with one too many, and compares whether they are successful with what the grammar asks for.
func lineSuccess(of grammars.Line, index uint) error {
	if err := lineSuccessOf(of, index); err != nil {
		return err
	}
	// the same with a compose among the containers
	containers := append([]grammars.Container{}, of.Containers()...)
	compose := bByType[reflect.TypeOf((*grammars.Container)(nil)).Elem()].bMake(1+2*int(index%2), 0).(grammars.Container)
	at := int(index/2) % (len(containers) + 1)
	containers = append(containers[:at], append([]grammars.Container{compose}, containers[at:]...)...)
	// and elements with a maximum around them
	for k := uint(0); k < 2; k++ {
		max := 1 + k + index%2
		card, err := cardinalities.NewBuilder().Create().WithMin(k).WithMax(max).Now()
		if err != nil {
			return fmt.Errorf("a cardinality of %d to %d: %v", k, max, err)
		}
		el, err := grammars.NewElementBuilder().Create().WithCardinality(card).WithRecursive(fmt.Sprintf("bounded %d", k)).Now()
		if err != nil {
			return fmt.Errorf("an element: %v", err)
		}
		bounded, err := grammars.NewContainerBuilder().Create().WithElement(el).Now()
		if err != nil {
			return fmt.Errorf("a container: %v", err)
		}
		if k == 0 {
			containers = append(containers, bounded)
		} else {
			containers = append([]grammars.Container{bounded}, containers...)
		}
	}
	with, err := grammars.NewLineBuilder().Create().WithContainers(containers).Now()
	if err != nil {
		return fmt.Errorf("a line with a compose: %v", err)
	}
	return lineSuccessOf(with, index)
}

func lineSuccessOf(of grammars.Line, index uint) error {
	containers := of.Containers()
	for i, one := range containers {
		if min, _ := containerBounds(one); min > 300 || len(containers) > 40 {
			return nil
		}
		for _, other := range containers[:i] {
			if one == other {
				return nil // which one is missing could not be told
			}
		}
	}
	amounts := make([]uint, len(containers))
	build := func() (trees.Line, error) {
		elements := []trees.Element{}
		for i, one := range containers {
			if amounts[i] == 0 {
				continue
			}
			contents, err := valueContents(amounts[i])
			if err != nil {
				return nil, err
			}
			el, err := trees.NewElementBuilder().Create().WithContents(contents).WithGrammar(one).Now()
			if err != nil {
				return nil, err
			}
			min, max := containerBounds(one)
			if one.IsCompose() {
				max = ^uint(0) // it is the line that asks for no more
			}
			if err := sameBool("IsSuccessful", el.IsSuccessful(), min <= amounts[i] && amounts[i] <= max); err != nil {
				return nil, fmt.Errorf("an element with %d contents: %w", amounts[i], err)
			}
			elements = append(elements, el)
		}
		builder := trees.NewLineBuilder().Create().WithIndex(index).WithGrammar(of)
		if len(elements) > 0 {
			list, err := trees.NewElementsBuilder().Create().WithList(elements).Now()
			if err != nil {
				return nil, err
			}
			builder.WithElements(list)
		}
		return builder.Now()
	}
	judge := func() error {
		want, any := true, false
		for i, one := range containers {
			min, max := containerBounds(one)
			any = any || amounts[i] > 0
			if amounts[i] < min || amounts[i] > max {
				want = false
			}
		}
		line, err := build()
		if err != nil {
			return fmt.Errorf("building a line with %v contents: %w", amounts, err)
		}
		if err := sameBool("IsSuccessful", line.IsSuccessful(), want && any); err != nil {
			return fmt.Errorf("a line with %v contents in its containers: %w", amounts, err)
		}
		return nil
	}
	for i := range containers {
		for j, one := range containers {
			amounts[j], _ = containerBounds(one)
			if min, max := containerBounds(one); (i+j)%2 == 1 && min == 0 && max > 0 {
				amounts[j] = 1
			}
		}
		if err := judge(); err != nil {
			return err
		}
		min, max := containerBounds(containers[i])
		tries := []uint{0, min + 1}
		if min > 0 {
			tries = append(tries, min-1)
		}
		if max < 300 {
			tries = append(tries, max, max+1)
		}
		for _, amount := range tries {
			amounts[i] = amount
			if err := judge(); err != nil {
				return err
			}
		}
	}
	return nil
}
