package verifsym

// StubPkgs are third-party packages that some rules know by path; only their declarations matter to template programs.
var StubPkgs = map[string]string{
	"golang.org/x/crypto/ssh":       "package ssh\ntype HostKeyCallback func()\nfunc InsecureIgnoreHostKey() HostKeyCallback { return nil }\ntype PublicKey interface{}\ntype ServerConfig struct { PublicKeyCallback func(conn ConnMetadata, key PublicKey) (*Permissions, error) }\ntype ConnMetadata interface{}\ntype Permissions struct { Extensions map[string]string }\n",
	"golang.org/x/sys/execabs":      "package execabs\nimport (\n\"context\"\n\"os/exec\"\n)\nfunc Command(name string, arg ...string) *exec.Cmd { return nil }\nfunc CommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd { return nil }\n",
	"golang.org/x/crypto/md4":       "package md4\nimport \"hash\"\nfunc New() hash.Hash { return nil }\n",
	"golang.org/x/crypto/ripemd160": "package ripemd160\nimport \"hash\"\nfunc New() hash.Hash { return nil }\n",
	"github.com/lib/pq":             "package pq\nfunc QuoteIdentifier(name string) string { return name }\nfunc QuoteLiteral(s string) string { return s }\n",
}
