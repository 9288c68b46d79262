// Package libxml stands in for github.com/amarin/libxml v0.1.2, which is not available offline. It drives the
// parser it is given with the tokens of encoding/xml, stopping at the first error.
package libxml

import (
	"encoding/xml"
	"errors"
	"io"
	"os"
)

type Parser interface {
	ProcessStartElement(element xml.StartElement) error
	ProcessCharData(data xml.CharData) error
	ProcessEndElement(element xml.EndElement) error
	ProcessComment(comment xml.Comment) error
	ProcessProcInst(inst xml.ProcInst) error
	ProcessDirective(directive xml.Directive) error
}

func ParseXMLFile(fileName string, parser Parser) error {
	file, err := os.Open(fileName)
	if err != nil {
		return err
	}

	defer func() { _ = file.Close() }()

	return ParseXML(file, parser)
}

func ParseXML(reader io.Reader, parser Parser) error {
	decoder := xml.NewDecoder(reader)

	for {
		token, err := decoder.Token()
		if errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}

		switch t := token.(type) {
		case xml.StartElement:
			err = parser.ProcessStartElement(t)
		case xml.CharData:
			err = parser.ProcessCharData(t)
		case xml.EndElement:
			err = parser.ProcessEndElement(t)
		case xml.Comment:
			err = parser.ProcessComment(t)
		case xml.ProcInst:
			err = parser.ProcessProcInst(t)
		case xml.Directive:
			err = parser.ProcessDirective(t)
		}

		if err != nil {
			return err
		}
	}
}
